From bac726f51533d15bdcc544ce18e1a4d9eac41c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 01/91] fix: escape special characters in XML text and
 attribute values

---
 src/autosar/xml/writer.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 892c42b..4f798b6 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -7,6 +7,7 @@ from typing import TextIO
 import sys
 import math
 import decimal
+from xml.sax.saxutils import escape
 import autosar.base as ar_base
 import autosar.xml.document as ar_document
 import autosar.xml.element as ar_element
@@ -70,7 +71,19 @@ class _XMLWriter:
         self.fh.write(text)
 
     def _add_inline_text(self, text):
-        self.fh.write(text)
+        self.fh.write(self._escape_text(text))
+
+    def _escape_text(self, text: str) -> str:
+        """
+        Replaces characters that have a special meaning in XML character data
+        """
+        return escape(text, {'\r': '&#13;'})
+
+    def _escape_attr(self, text: str) -> str:
+        """
+        Replaces characters that have a special meaning in XML attribute values
+        """
+        return escape(text, {'"': '&quot;', '\t': '&#9;', '\n': '&#10;', '\r': '&#13;'})
 
     def _add_child(self, tag: str, attr: TupleList = None):
         if attr:
@@ -94,7 +107,7 @@ class _XMLWriter:
             text = f'<{tag}>'
         else:
             text = f'<{tag} {self._attr_to_str(attr)}>'
-        self._add_inline_text(text)
+        self.fh.write(text)
 
     def _end_line(self, tag: str):
         text = f'</{tag}>'
@@ -102,6 +115,7 @@ class _XMLWriter:
 
     def _add_content(self, tag: str, content: str = '', attr: TupleList = None, inline: bool = False):
         assert isinstance(content, str)
+        content = self._escape_text(content)
         if attr:
             if content:
                 text = f'<{tag} {self._attr_to_str(attr)}>{content}</{tag}>'
@@ -113,7 +127,7 @@ class _XMLWriter:
             else:
                 text = f'<{tag}/>'
         if inline:
-            self._add_inline_text(text)
+            self.fh.write(text)
         else:
             self._add_line(text)
 
@@ -121,7 +135,7 @@ class _XMLWriter:
         """
         Converts pairs (2-tuples) into attribute XML string
         """
-        parts = [f'{elem[0]}="{elem[1]}"' for elem in attr]
+        parts = [f'{elem[0]}="{self._escape_attr(elem[1])}"' for elem in attr]
         return ' '.join(parts)
 
     def _format_float(self, value: float) -> str:
-- 
2.43.0


From d51f9f11ca7a5d05637239c88ffb1116a4041235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 02/91] fix: read every kind of inline element and the text
 that follows it

---
 src/autosar/xml/reader.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5c4efe6..a07be73 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -866,13 +866,13 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             else:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_overview_paragraph(self,
                                                 xml_elem: ElementTree.Element) -> MultiLanguageOverviewParagraph:
@@ -923,7 +923,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT', 'TRACE-REF', 'XREF'}:
                 # These elements are not yet supported
@@ -932,7 +932,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_language_paragraph(self, xml_elem: ElementTree.Element) -> ar_element.LanguageParagraph:
         """
@@ -978,7 +978,7 @@ class Reader:
                 elem.append(self._read_subscript(xml_child_elem))
             elif xml_child_elem.tag == 'SUP':
                 elem.append(self._read_superscript(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'FT',
                                         'STD',
@@ -993,7 +993,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_mixed_content_for_verbatim(self,
                                          xml_elem: ElementTree.Element,
@@ -1009,7 +1009,7 @@ class Reader:
                 elem.append(self._read_break(xml_child_elem))
             elif xml_child_elem.tag == 'E':
                 elem.append(self._read_emphasis_text(xml_child_elem))
-            if xml_child_elem.tag == 'TT':
+            elif xml_child_elem.tag == 'TT':
                 elem.append(self._read_technical_term(xml_child_elem))
             elif xml_child_elem.tag in {'XREF'}:
                 # These elements are not yet supported
@@ -1018,7 +1018,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_elem.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_multi_language_paragraph(self,
                                        xml_elem: ElementTree.Element) -> ar_element.MultiLanguageParagraph:
@@ -1123,7 +1123,7 @@ class Reader:
                 self._raise_parse_error(
                     xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
             if xml_child_elem.tail:
-                elem.append(xml_element.text)
+                elem.append(xml_child_elem.tail)
 
     def _read_describable(self,
                           child_elements: ChildElementMap, data: dict) -> None:
-- 
2.43.0


From b1ef5ed58006f7c8eff51251aa59a5af01694b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 03/91] fix: accept superscript and line break in mixed
 content, plain text as unit name

---
 src/autosar/xml/element.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b91e301..3ea12c4 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -591,11 +591,11 @@ class MixedContentForLongName(LanguageSpecific):
         super().__init__(language)
         self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Superscript):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -608,17 +608,17 @@ class MixedContentForOverviewParagraph(LanguageSpecific):
 
     def __init__(self, language: ar_enum.Language) -> None:
         super().__init__(language)
-        self.parts = []  # Unbounded list of str | TT | E | SUP | SUB | IE
+        self.parts = []  # Unbounded list of str | BR | TT | E | SUP | SUB | IE
         # Unsupported elements:
         # FT : AR:SL-OVERVIEW-PARAGRAPH
         # TRACE-REF: Complex type
         # XREF: AR:-XREF-TARGET
 
-    def append(self, part: str | TechnicalTerm | EmphasisText | Subscript | Subscript):
+    def append(self, part: str | Break | TechnicalTerm | EmphasisText | Subscript | Superscript):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, TechnicalTerm, EmphasisText, Subscript, Subscript, IndexEntry)):
+        if isinstance(part, (str, Break, TechnicalTerm, EmphasisText, Subscript, Superscript, IndexEntry)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -638,7 +638,7 @@ class LanguageLongName(MixedContentForLongName):
     * TechnicalTerm
     * EmphasisText
     * Subscript
-    * Subscript
+    * Superscript
     """
 
     def __init__(self, language: ar_enum.Language, parts: None | str | list[Any] = None) -> None:
@@ -693,7 +693,7 @@ class LanguageOverviewParagraph(MixedContentForOverviewParagraph):
     * TechnicalTerm
     * EmphasisText
     * Subscript
-    * Subscript
+    * Superscript
     """
 
     def __init__(self, language: ar_enum.Language, parts: None | str | list[Any] = None) -> None:
@@ -799,11 +799,11 @@ class MixedContentForParagraph(LanguageSpecific):
         # XREF-TARGET: AR:-XREF-TARGET
 
     def append(self,
-               part: str | Break | EmphasisText | IndexEntry | Subscript | Subscript | TechnicalTerm):
+               part: str | Break | EmphasisText | IndexEntry | Subscript | Superscript | TechnicalTerm):
         """
         Checks type validity before adding element to elements
         """
-        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Subscript, TechnicalTerm)):
+        if isinstance(part, (str, Break, EmphasisText, IndexEntry, Subscript, Superscript, TechnicalTerm)):
             self.parts.append(part)
         else:
             raise TypeError('Unsupported element type: ' + str(type(part)))
@@ -824,7 +824,7 @@ class LanguageParagraph(MixedContentForParagraph):
     * EmphasisText
     * TechnicalTerm
     * Subscript
-    * Subscript
+    * Superscript
     """
 
     def __init__(self, language: ar_enum.Language, parts: None | str | list[Any] = None) -> None:
@@ -977,7 +977,7 @@ class SingleLanguageUnitNames(MixedContentForUnitNames):
     def __init__(self, parts: str | list | None = None) -> None:
         super().__init__()
         if parts is not None:
-            if isinstance(parts, Iterable):
+            if isinstance(parts, Iterable) and not isinstance(parts, str):
                 for part in parts:
                     self.append(part)
             else:
-- 
2.43.0


From 0918ed8c2848e4159e53e908d0476d60f5a7d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 04/91] fix: read empty inline elements as empty text

---
 src/autosar/xml/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a07be73..482e77a 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -752,7 +752,7 @@ class Reader:
         if len(elem.findall('./*')) > 0:
             raise NotImplementedError(
                 "Nesting inside <E> elements not yet supported")
-        data['elements'] = elem.text
+        data['elements'] = elem.text or ""
         return ar_element.EmphasisText(**data)
 
     def _read_emphasis_text_attr(self, attrib: dict, data: dict) -> None:
@@ -774,7 +774,7 @@ class Reader:
         Limitations: Doesn't support child-elements even though it's allowed in the scehema
         Type: Concrete
         """
-        return ar_element.IndexEntry(elem.text)
+        return ar_element.IndexEntry(elem.text or "")
 
     def _read_technical_term(self,
                              elem: ElementTree.Element) -> ar_element.TechnicalTerm:
@@ -787,7 +787,7 @@ class Reader:
         if len(elem.findall('./*')) > 0:
             self._raise_parse_error(
                 elem, 'Child elements in "AR:TT" not allowed')
-        data['text'] = elem.text
+        data['text'] = elem.text or ""
         return ar_element.TechnicalTerm(**data)
 
     def _read_technical_term_attr(self, attrib: dict, data: dict) -> None:
@@ -804,14 +804,14 @@ class Reader:
         Reads complexType AR:SUPSCRIPT for tag SUP
         Type: Concrete
         """
-        return ar_element.Superscript(elem.text)
+        return ar_element.Superscript(elem.text or "")
 
     def _read_subscript(self, elem: ElementTree.Element) -> ar_element.TechnicalTerm:
         """
         Reads complexType AR:SUPSCRIPT for tag SUB
         Type: Concrete
         """
-        return ar_element.Subscript(elem.text)
+        return ar_element.Subscript(elem.text or "")
 
     def _read_multi_language_long_name(self, xml_elem: ElementTree.Element) -> ar_element.MultilanguageLongName:
         """
-- 
2.43.0


From 5edb348867b9cee7a544584d4e5da4e486a08164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 05/91] fix: do not let XML comments truncate the text of an
 element

---
 src/autosar/xml/reader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 482e77a..99560e7 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -352,7 +352,7 @@ class Reader:
         Reads ARXML document file
         """
         self.document = None
-        self.xml_root = ElementTree.ElementTree().parse(file_path)
+        self.xml_root = ElementTree.ElementTree().parse(file_path, self._create_parser())
         self.file_path = file_path
         self.file_base_name = os.path.basename(file_path)
         self.observed_unsupported_elements = set()
@@ -368,7 +368,7 @@ class Reader:
         """
         self.observed_unsupported_elements = set()
         self.document = None
-        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
+        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser())
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
@@ -383,7 +383,7 @@ class Reader:
         This is primarily used for unit-testing.
         """
         self.observed_unsupported_elements = set()
-        elem = ElementTree.fromstring(xml)
+        elem = ElementTree.fromstring(xml, self._create_parser())
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
         else:
@@ -395,6 +395,12 @@ class Reader:
 
     # --- Utility methods
 
+    def _create_parser(self) -> ElementTree.XMLParser:
+        """
+        Comments and processing instructions are not part of the content of an element
+        """
+        return ElementTree.XMLParser(remove_comments=True, remove_pis=True)
+
     def _report_unprocessed_elements(self, xml_elements: ChildElementMap):
         """
         Reports about unprocessed child elements
-- 
2.43.0


From 58b5ba3f818614112e92c144d4418209a7699945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 06/91] fix: write large, negative and scientific numbers
 without loss

---
 src/autosar/xml/writer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 4f798b6..4d71bb5 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -149,7 +149,10 @@ class _XMLWriter:
             return 'NaN'
         else:
             tmp = decimal.Decimal(str(value))
-            result = tmp.quantize(decimal.Decimal(1)) if tmp == tmp.to_integral() else tmp.normalize()
+            if tmp == tmp.to_integral() and tmp.adjusted() < decimal.getcontext().prec:
+                result = tmp.quantize(decimal.Decimal(1))
+            else:
+                result = tmp.normalize()
             return str(result)
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
@@ -176,11 +179,14 @@ class _XMLWriter:
         if number.value_format in (ar_enum.ValueFormat.DEFAULT, ar_enum.ValueFormat.DECIMAL):
             return self._format_number(number.value)
         elif number.value_format == ar_enum.ValueFormat.HEXADECIMAL:
-            return f"0x{number.value:x}"
+            return f"{number.value:#x}"
         elif number.value_format == ar_enum.ValueFormat.BINARY:
-            return f"0b{number.value:b}"
+            return f"{number.value:#b}"
         elif number.value_format == ar_enum.ValueFormat.SCIENTIFIC:
-            return f"{number.value:e}"
+            if not math.isfinite(number.value):
+                return self._format_number(number.value)
+            text = f"{number.value:e}"
+            return text if float(text) == number.value else f"{number.value:.16e}"
         else:
             raise NotImplementedError
 
-- 
2.43.0


From daca0941b319fe6fa6187b1c6d1423fffcf62eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 07/91] fix: read integers and numbers in every notation the
 schema allows

---
 src/autosar/xml/reader.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 99560e7..b8b8831 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -461,22 +461,20 @@ class Reader:
         """
         Attempts to convert text to either int or float
         """
-        try:
-            value = int(text)
-        except ValueError:
+        for convert in (int, lambda text: int(text, 0), float):
             try:
-                value = float(text)
-            except ValueError as exc:
-                raise ar_exception.ParseError(f"Not a number: {text}") from exc
-        return value
+                return convert(text)
+            except (TypeError, ValueError):
+                continue
+        raise ar_exception.ParseError(f"Not a number: {text}")
 
     def _read_integer(self, text: str) -> int:
         """
         Reads AR:INTEGER
         """
         try:
-            value = int(text, 0)
-        except ValueError as exc:
+            value = int(text, 8) if re.fullmatch(r"[+-]?0[0-7]+", text) else int(text, 0)
+        except (TypeError, ValueError) as exc:
             raise ar_exception.ParseError(f"Failed to parse integer: {text}") from exc
         return value
 
@@ -1230,7 +1228,7 @@ class Reader:
             data["desc"] = self._read_multi_language_overview_paragraph(xml_child)
         xml_child = child_elements.get("MASK")
         if xml_child is not None:
-            data["mask"] = int(xml_child.text)
+            data["mask"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("LOWER-LIMIT")
         if xml_child is not None:
             limit, interval_type = self._read_limit(xml_child)
@@ -1354,7 +1352,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("CONSTR-LEVEL")
         if xml_child is not None:
-            data["level"] = int(xml_child.text)
+            data["level"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("PHYS-CONSTRS")
         if xml_child is not None:
             data["physical"] = self._read_physical_constraint(xml_child)
@@ -1667,10 +1665,10 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         bit_position = child_elements.get('BIT-POSITION')
         if bit_position is not None:
-            data['position'] = int(bit_position.text)
+            data['position'] = self._read_integer(bit_position.text)
         number_of_bits = child_elements.get('NUMBER-OF-BITS')
         if number_of_bits is not None:
-            data['num_bits'] = int(number_of_bits.text)
+            data['num_bits'] = self._read_integer(number_of_bits.text)
         self._report_unprocessed_elements(child_elements)
         return ar_element.SwBitRepresentation(**data)
 
@@ -1883,7 +1881,7 @@ class Reader:
             data["array_impl_policy"] = ar_enum.xml_to_enum("ArrayImplPolicy", xml_child.text)
         xml_child = child_elements.get("ARRAY-SIZE")
         if xml_child is not None:
-            data["array_size"] = int(xml_child.text)
+            data["array_size"] = self._read_integer(xml_child.text)
         xml_child = child_elements.get("ARRAY-SIZE-HANDLING")
         if xml_child is not None:
             data["array_size_handling"] = ar_enum.xml_to_enum("ArraySizeHandling", xml_child.text)
@@ -2034,7 +2032,7 @@ class Reader:
             data["index_data_type_ref"] = self._read_index_data_type_ref(xml_child)
         xml_child = child_elements.get("MAX-NUMBER-OF-ELEMENTS")
         if xml_child is not None:
-            data["max_number_of_elements"] = int(xml_child.text)
+            data["max_number_of_elements"] = self._read_integer(xml_child.text)
 
     def _read_application_record_element(self, xml_element: ElementTree.Element) -> ar_element.ApplicationRecordElement:
         """
-- 
2.43.0


From 0c246fb12be529aa33fbb7252d8de443650b4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 08/91] fix: write all annotations inside a single ANNOTATIONS
 element

---
 src/autosar/xml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 4d71bb5..c042d2b 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -596,10 +596,10 @@ class Writer(_XMLWriter):
         """
         tag = 'ANNOTATIONS'
         if elements:
+            self._add_child(tag)
             for elem in elements:
-                self._add_child(tag)
                 self._write_annotation(elem)
-                self._leave_child()
+            self._leave_child()
         else:
             self._add_content(tag)
 
-- 
2.43.0


From dd6c820c9c89e2e4efa23f4878030e11caf03be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 09/91] fix: read elements that have an introduction,
 annotations or admin data

---
 src/autosar/xml/element.py | 15 ++++++++++++---
 src/autosar/xml/reader.py  |  8 ++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 3ea12c4..a7b52fa 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -234,13 +234,14 @@ class Identifiable(MultiLanguageReferrable):
                  category: str | None = None,
                  uuid: str | None = None,
                  admin_data: Union["AdminData", None] = None,
+                 introduction: Union["DocumentationBlock", None] = None,
+                 annotations: Union[list["Annotation"], None] = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
         self.desc: MultiLanguageOverviewParagraph | None = None
         self.category = None
-        self.admin_data = None
-        self.introduction = None
-        self.annotations = None
+        self.introduction: Union["DocumentationBlock", None] = None
+        self.annotations: Union[list["Annotation"], None] = None
         self.uuid = None
         self.admin_data: Union["AdminData", None] = None
         if desc is not None:
@@ -254,6 +255,14 @@ class Identifiable(MultiLanguageReferrable):
                 raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
         self._assign_optional('category', category, str)
         self._assign_optional('uuid', uuid, str)
+        self._assign_optional_strict('admin_data', admin_data, AdminData)
+        self._assign_optional_strict('introduction', introduction, DocumentationBlock)
+        if annotations is not None:
+            self.annotations = []
+            for annotation in [annotations] if isinstance(annotations, Annotation) else annotations:
+                if not isinstance(annotation, Annotation):
+                    raise TypeError(f"Invalid type for argument 'annotations': {str(type(annotation))}")
+                self.annotations.append(annotation)
 
     def update_ref_parts(self, ref_parts: list[str]):
         """
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index b8b8831..70db520 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -549,7 +549,7 @@ class Reader:
         element_map.skip('USED-LANGUAGES')  # Implement later
         element_map.skip('DOC-REVISIONS')  # Implement later
         xml_sdgs = element_map.get('SDGS')
-        if len(xml_sdgs):
+        if xml_sdgs is not None and len(xml_sdgs):
             data['data'] = self._read_admin_data_sdgs(xml_sdgs)
         return ar_element.AdminData(**data)
 
@@ -567,16 +567,16 @@ class Reader:
         """
         Reads Complex-type AR:SDG
         """
-        group_key = xml_element.attrib['GID']
+        group_key = xml_element.attrib.get('GID')
         xml_sd = xml_element.find('./SD')
-        special_data = self._read_admin_data_sd(xml_sd)
+        special_data = self._read_admin_data_sd(xml_sd) if xml_sd is not None else {}
         return {group_key: special_data}
 
     def _read_admin_data_sd(self, xml_element: ElementTree.Element) -> dict[str, str]:
         """
         Reads Complex-type AR:SD
         """
-        key = xml_element.attrib['GID']
+        key = xml_element.attrib.get('GID')
         value = xml_element.text
         return {key: value}
 
-- 
2.43.0


From 9162b6ae7f440e95329517d7ec6943935afb2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 10/91] fix: report an unreadable element or package and go on
 with the rest of the file

---
 src/autosar/xml/reader.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 70db520..5488335 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -619,8 +619,7 @@ class Reader:
     def _read_packages(self):
         for xml_node in self.xml_root.findall('./AR-PACKAGES/*'):
             if xml_node.tag == 'AR-PACKAGE':
-                package = self._read_package(xml_node)
-                self.document.append(package)
+                self._read_package_into(self.document, xml_node)
 
     def _read_package(self, elem: ElementTree.Element) -> ar_element.Package:
         data = {}
@@ -660,19 +659,19 @@ class Reader:
                     element = read_method(xml_child_elem)
                     assert isinstance(element, ar_element.ARElement)
                     package.append(element)
-                except ar_exception.ParseError as exc:
-                    msg = "Parse error encountered while reading element starting on this line"
-                    message = self._element_error_message(xml_child_elem, msg)
-                    if self.stop_on_error:
-                        raise ar_exception.ParseError(message) from exc
-                    print(message + ":")
-                    print("    " + str(exc))
                 except ar_exception.DuplicateElement as exc:
                     message = self._element_error_message(xml_child_elem,
                                                           str(exc))
                     if self.stop_on_error:
                         raise ar_exception.DuplicateElement(message) from exc
                     print(message)
+                except (ar_exception.ParseError, ValueError, TypeError, KeyError) as exc:
+                    msg = "Parse error encountered while reading element starting on this line"
+                    message = self._element_error_message(xml_child_elem, msg)
+                    if self.stop_on_error:
+                        raise ar_exception.ParseError(message) from exc
+                    print(message + ":")
+                    print("    " + str(exc))
             else:
                 self._report_unprocessed_element(xml_child_elem)
 
@@ -682,9 +681,20 @@ class Reader:
         Type: Utility
         """
         for xml_child_package in xml_packages.findall('./AR-PACKAGE'):
-            child_package = self._read_package(xml_child_package)
-            assert isinstance(child_package, ar_element.Package)
-            package.append(child_package)
+            self._read_package_into(package, xml_child_package)
+
+    def _read_package_into(self,
+                           parent: ar_document.Document | ar_element.Package,
+                           xml_package: ElementTree.Element) -> None:
+        """
+        Reads a package and adds it to its parent
+        """
+        try:
+            parent.append(self._read_package(xml_package))
+        except (ar_exception.ParseError, ValueError, TypeError, KeyError) as exc:
+            if self.stop_on_error:
+                raise
+            print(self._element_error_message(xml_package, str(exc)))
 
     # --- Documentation elements
 
-- 
2.43.0


From 9cae12fe4d4e90dfb4d36d66ef8c969d7bd8cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 11/91] fix: do not carry the schema version of one document
 over to the next one

---
 src/autosar/xml/reader.py | 4 ++++
 src/autosar/xml/writer.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5488335..9651c15 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -125,6 +125,7 @@ class Reader:
         self.observed_unsupported_elements = None
         self.schema_file: str = ''
         self.schema_version = schema_version
+        self.default_schema_version = schema_version
         self.document: ar_document.Document = None
         self.stop_on_error = False
         self.switcher_collectable = {  # Collectable elements
@@ -383,6 +384,7 @@ class Reader:
         This is primarily used for unit-testing.
         """
         self.observed_unsupported_elements = set()
+        self.schema_version = self.default_schema_version
         elem = ElementTree.fromstring(xml, self._create_parser())
         if type_name is not None:
             read_method = self._switcher_type_name.get(type_name, None)
@@ -591,6 +593,8 @@ class Reader:
 #                self._read_file_info_comment(xml_node, self.document)
 
     def _read_schema_version(self) -> None:
+        self.schema_file = ''
+        self.schema_version = self.default_schema_version
         for key in self.xml_root.attrib.keys():
             if key.endswith('schemaLocation'):
                 match = re.search(r'AUTOSAR_(\d+).xsd',
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index c042d2b..1c6c61b 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -206,6 +206,7 @@ class Writer(_XMLWriter):
                  schema_version: int = ar_base.DEFAULT_SCHEMA_VERSION) -> None:
         super().__init__(indentation_step=2)
         self.schema_version = schema_version
+        self.default_schema_version = schema_version
 
         # Elements found in AR:PACKAGE
         self.switcher_collectable = {
@@ -439,6 +440,7 @@ class Writer(_XMLWriter):
         Writes single ARXML element as string
         """
         self._str_open()
+        self.schema_version = self.default_schema_version
         class_name = elem.__class__.__name__
         write_method = self.switcher_all.get(class_name, None)
         if write_method is not None:
@@ -456,6 +458,7 @@ class Writer(_XMLWriter):
         Writes single ARXML element to file
         """
         self._open(file_path)
+        self.schema_version = self.default_schema_version
         class_name = elem.__class__.__name__
         write_method = self.switcher_collectable.get(class_name, None)
         if write_method is not None:
-- 
2.43.0


From 306f91aedebb46230d2d84b5fa085f71c8ecc868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 12/91] fix: enforce the schema versions of the array
 implementation policy

---
 src/autosar/xml/reader.py | 2 +-
 src/autosar/xml/writer.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 9651c15..efdb6c6 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1892,7 +1892,7 @@ class Reader:
         """
         xml_child = child_elements.get("ARRAY-IMPL-POLICY")
         if xml_child is not None:
-            data["array_impl_policy"] = ar_enum.xml_to_enum("ArrayImplPolicy", xml_child.text)
+            data["array_impl_policy"] = ar_enum.xml_to_enum("ArrayImplPolicy", xml_child.text, self.schema_version)
         xml_child = child_elements.get("ARRAY-SIZE")
         if xml_child is not None:
             data["array_size"] = self._read_integer(xml_child.text)
diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 1c6c61b..6e22b35 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1624,7 +1624,8 @@ class Writer(_XMLWriter):
         Type: Abstract
         """
         if elem.array_impl_policy is not None:
-            self._add_content("ARRAY-IMPL-POLICY", ar_enum.enum_to_xml(elem.array_impl_policy))
+            self._add_content("ARRAY-IMPL-POLICY",
+                              ar_enum.enum_to_xml(elem.array_impl_policy, self.schema_version))
         if elem.array_size is not None:
             self._add_content("ARRAY-SIZE", str(elem.array_size))
         if elem.array_size_handling is not None:
-- 
2.43.0


From 615955e982dd71828b92649db695a8c2e241ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 13/91] fix: restore the schema version of the writer after
 writing a document

---
 src/autosar/xml/writer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 6e22b35..2626f6d 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -206,7 +206,6 @@ class Writer(_XMLWriter):
                  schema_version: int = ar_base.DEFAULT_SCHEMA_VERSION) -> None:
         super().__init__(indentation_step=2)
         self.schema_version = schema_version
-        self.default_schema_version = schema_version
 
         # Elements found in AR:PACKAGE
         self.switcher_collectable = {
@@ -440,7 +439,6 @@ class Writer(_XMLWriter):
         Writes single ARXML element as string
         """
         self._str_open()
-        self.schema_version = self.default_schema_version
         class_name = elem.__class__.__name__
         write_method = self.switcher_all.get(class_name, None)
         if write_method is not None:
@@ -458,7 +456,6 @@ class Writer(_XMLWriter):
         Writes single ARXML element to file
         """
         self._open(file_path)
-        self.schema_version = self.default_schema_version
         class_name = elem.__class__.__name__
         write_method = self.switcher_collectable.get(class_name, None)
         if write_method is not None:
@@ -519,7 +516,14 @@ class Writer(_XMLWriter):
     # AUTOSAR Document
 
     def _write_document(self, document: ar_document.Document, skip_root_attr: bool = False):
+        default_schema_version = self.schema_version
         self.schema_version = document.schema_version
+        try:
+            self._write_document_content(document, skip_root_attr)
+        finally:
+            self.schema_version = default_schema_version
+
+    def _write_document_content(self, document: ar_document.Document, skip_root_attr: bool):
         self._add_line('<?xml version="1.0" encoding="utf-8"?>')
         if skip_root_attr:
             self._add_child("AUTOSAR")
-- 
2.43.0


From 70d89a6e846b56dc13970d91958ee66b09230b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 14/91] fix: write the UUID of every identifiable element

---
 src/autosar/xml/writer.py | 220 ++++++++++++++++++++++++++++----------
 1 file changed, 165 insertions(+), 55 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 2626f6d..d8042d6 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -1615,7 +1615,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE-ELEMENT'
         """
         assert isinstance(elem, ar_element.ImplementationDataTypeElement)
-        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IMPLEMENTATION-DATA-TYPE-ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1653,7 +1655,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IMPLEMENTATION-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ImplementationDataType)
-        self._add_child("IMPLEMENTATION-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IMPLEMENTATION-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1704,7 +1708,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-PRIMITIVE-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationPrimitiveDataType)
-        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-PRIMITIVE-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1729,7 +1735,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationArrayElement)
-        self._add_child("ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1759,7 +1767,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-ELEMENT'
         """
         assert isinstance(elem, ar_element.ApplicationRecordElement)
-        self._add_child("APPLICATION-RECORD-ELEMENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-RECORD-ELEMENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1783,7 +1793,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ARRAY-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationArrayDataType)
-        self._add_child("APPLICATION-ARRAY-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-ARRAY-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -1808,7 +1820,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-RECORD-DATA-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationRecordDataType)
-        self._add_child("APPLICATION-RECORD-DATA-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-RECORD-DATA-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2812,7 +2826,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-DECLARATION'
         """
         assert isinstance(elem, ar_element.ModeDeclaration)
-        self._add_child("MODE-DECLARATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-DECLARATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2842,7 +2858,9 @@ class Writer(_XMLWriter):
         tag variants: 'MODE-TRANSITION'
         """
         assert isinstance(elem, ar_element.ModeTransition)
-        self._add_child("MODE-TRANSITION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-TRANSITION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2940,7 +2958,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.NvDataInterface)
-        self._add_child("NV-DATA-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("NV-DATA-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2965,7 +2985,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.ParameterInterface)
-        self._add_child("PARAMETER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PARAMETER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -2990,7 +3012,9 @@ class Writer(_XMLWriter):
         Type: Concrete
         """
         assert isinstance(elem, ar_element.SenderReceiverInterface)
-        self._add_child("SENDER-RECEIVER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SENDER-RECEIVER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3044,7 +3068,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-ERROR'
         """
         assert isinstance(elem, ar_element.ApplicationError)
-        self._add_child("APPLICATION-ERROR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-ERROR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3064,7 +3090,9 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-OPERATION'
         """
         assert isinstance(elem, ar_element.ClientServerOperation)
-        self._add_child("CLIENT-SERVER-OPERATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("CLIENT-SERVER-OPERATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3096,7 +3124,9 @@ class Writer(_XMLWriter):
         Tag variants: 'CLIENT-SERVER-INTERFACE'
         """
         assert isinstance(elem, ar_element.ClientServerInterface)
-        self._add_child("CLIENT-SERVER-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("CLIENT-SERVER-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3125,7 +3155,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-INTERFACE'
         """
         assert isinstance(elem, ar_element.ModeSwitchInterface)
-        self._add_child("MODE-SWITCH-INTERFACE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCH-INTERFACE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3197,7 +3229,9 @@ class Writer(_XMLWriter):
         Tag variants: 'E-2-E-PROFILE-COMPATIBILITY-PROPS'
         """
         assert isinstance(elem, ar_element.E2EProfileCompatibilityProps)
-        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("E-2-E-PROFILE-COMPATIBILITY-PROPS", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3619,7 +3653,9 @@ class Writer(_XMLWriter):
         Tag variants: 'P-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.ProvidePortPrototype)
-        self._add_child("P-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("P-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3644,7 +3680,9 @@ class Writer(_XMLWriter):
         Tag variants: 'R-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.RequirePortPrototype)
-        self._add_child("R-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("R-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3671,7 +3709,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PR-PORT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.PRPortPrototype)
-        self._add_child("PR-PORT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PR-PORT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3735,7 +3775,9 @@ class Writer(_XMLWriter):
         Tag variants: 'APPLICATION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.ApplicationSoftwareComponentType)
-        self._add_child("APPLICATION-SW-COMPONENT-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("APPLICATION-SW-COMPONENT-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3749,7 +3791,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SW-COMPONENT-PROTOTYPE'
         """
         assert isinstance(elem, ar_element.SwComponentPrototype)
-        self._add_child("SW-COMPONENT-PROTOTYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SW-COMPONENT-PROTOTYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3792,7 +3836,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASSEMBLY-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.AssemblySwConnector)
-        self._add_child("ASSEMBLY-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASSEMBLY-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3808,7 +3854,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DELEGATION-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.DelegationSwConnector)
-        self._add_child("DELEGATION-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DELEGATION-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3830,7 +3878,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PASS-THROUGH-SW-CONNECTOR'
         """
         assert isinstance(elem, ar_element.PassThroughSwConnector)
-        self._add_child("PASS-THROUGH-SW-CONNECTOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PASS-THROUGH-SW-CONNECTOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3846,7 +3896,9 @@ class Writer(_XMLWriter):
         Tag variants: 'COMPOSITION-SW-COMPONENT-TYPE'
         """
         assert isinstance(elem, ar_element.CompositionSwComponentType)
-        self._add_child("COMPOSITION-SW-COMPONENT-TYPE")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("COMPOSITION-SW-COMPONENT-TYPE", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -3880,7 +3932,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-IMPLEMENTATION'
         """
         assert isinstance(elem, ar_element.SwcImplementation)
-        self._add_child("SWC-IMPLEMENTATION")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-IMPLEMENTATION", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4137,7 +4191,9 @@ class Writer(_XMLWriter):
         Tag variants: 'REPLACE-WITH' | 'VARIABLE-ACCESS'
         """
         assert isinstance(elem, ar_element.VariableAccess)
-        self._add_child(tag)
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child(tag, attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4214,7 +4270,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4228,7 +4286,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SYNCHRONOUS-SERVER-CALL-POINT'
         """
         assert isinstance(elem, ar_element.SynchronousServerCallPoint)
-        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SYNCHRONOUS-SERVER-CALL-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4245,7 +4305,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallResultPoint)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RESULT-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4266,7 +4328,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggeringPointIdent)
-        self._add_child("IDENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IDENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4296,7 +4360,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGERING-POINT'
         """
         assert isinstance(elem, ar_element.InternalTriggeringPoint)
-        self._add_child("INTERNAL-TRIGGERING-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INTERNAL-TRIGGERING-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4311,7 +4377,9 @@ class Writer(_XMLWriter):
         Tag variants: 'IDENT'
         """
         assert isinstance(elem, ar_element.ModeAccessPointIdent)
-        self._add_child("IDENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("IDENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4349,7 +4417,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCH-POINT'
         """
         assert isinstance(elem, ar_element.ModeSwitchPoint)
-        self._add_child("MODE-SWITCH-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCH-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4404,7 +4474,9 @@ class Writer(_XMLWriter):
         Tag variants: 'PARAMETER-ACCESS'
         """
         assert isinstance(elem, ar_element.ParameterAccess)
-        self._add_child("PARAMETER-ACCESS")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("PARAMETER-ACCESS", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4427,7 +4499,9 @@ class Writer(_XMLWriter):
         Tag variants: 'WAIT-POINT'
         """
         assert isinstance(elem, ar_element.WaitPoint)
-        self._add_child("WAIT-POINT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("WAIT-POINT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4501,7 +4575,9 @@ class Writer(_XMLWriter):
         This is in early stage, most will be implemented later
         """
         assert isinstance(elem, ar_element.RunnableEntity)
-        self._add_child("RUNNABLE-ENTITY")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("RUNNABLE-ENTITY", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4619,7 +4695,9 @@ class Writer(_XMLWriter):
         Tag variants: 'ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT'
         """
         assert isinstance(elem, ar_element.AsynchronousServerCallReturnsEvent)
-        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4634,7 +4712,9 @@ class Writer(_XMLWriter):
         Tag variants: 'BACKGROUND-EVENT'
         """
         assert isinstance(elem, ar_element.BackgroundEvent)
-        self._add_child("BACKGROUND-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("BACKGROUND-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4647,7 +4727,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVE-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceiveErrorEvent)
-        self._add_child("DATA-RECEIVE-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-RECEIVE-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4662,7 +4744,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-RECEIVED-EVENT'
         """
         assert isinstance(elem, ar_element.DataReceivedEvent)
-        self._add_child("DATA-RECEIVED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-RECEIVED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4677,7 +4761,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-SEND-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataSendCompletedEvent)
-        self._add_child("DATA-SEND-COMPLETED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-SEND-COMPLETED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4692,7 +4778,9 @@ class Writer(_XMLWriter):
         Tag variants: 'DATA-WRITE-COMPLETED-EVENT'
         """
         assert isinstance(elem, ar_element.DataWriteCompletedEvent)
-        self._add_child("DATA-WRITE-COMPLETED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("DATA-WRITE-COMPLETED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4707,7 +4795,9 @@ class Writer(_XMLWriter):
         Tag variants: 'EXTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.ExternalTriggerOccurredEvent)
-        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("EXTERNAL-TRIGGER-OCCURRED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4722,7 +4812,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INIT-EVENT'
         """
         assert isinstance(elem, ar_element.InitEvent)
-        self._add_child("INIT-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INIT-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4735,7 +4827,9 @@ class Writer(_XMLWriter):
         Tag variants: 'INTERNAL-TRIGGER-OCCURRED-EVENT'
         """
         assert isinstance(elem, ar_element.InternalTriggerOccurredEvent)
-        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("INTERNAL-TRIGGER-OCCURRED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4750,7 +4844,9 @@ class Writer(_XMLWriter):
         Tag variants: 'MODE-SWITCHED-ACK-EVENT'
         """
         assert isinstance(elem, ar_element.ModeSwitchedAckEvent)
-        self._add_child("MODE-SWITCHED-ACK-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("MODE-SWITCHED-ACK-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4765,7 +4861,9 @@ class Writer(_XMLWriter):
         Tag variants: 'OPERATION-INVOKED-EVENT'
         """
         assert isinstance(elem, ar_element.OperationInvokedEvent)
-        self._add_child("OPERATION-INVOKED-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("OPERATION-INVOKED-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4780,7 +4878,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-MANAGER-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeManagerErrorEvent)
-        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-MODE-MANAGER-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4795,7 +4895,9 @@ class Writer(_XMLWriter):
         Tag variants: 'SWC-MODE-SWITCH-EVENT'
         """
         assert isinstance(elem, ar_element.SwcModeSwitchEvent)
-        self._add_child("SWC-MODE-SWITCH-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-MODE-SWITCH-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4824,7 +4926,9 @@ class Writer(_XMLWriter):
         Tag variants: 'TIMING-EVENT'
         """
         assert isinstance(elem, ar_element.TimingEvent)
-        self._add_child("TIMING-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("TIMING-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4841,7 +4945,9 @@ class Writer(_XMLWriter):
         Tag variants: 'TRANSFORMER-HARD-ERROR-EVENT'
         """
         assert isinstance(elem, ar_element.TransformerHardErrorEvent)
-        self._add_child("TRANSFORMER-HARD-ERROR-EVENT")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("TRANSFORMER-HARD-ERROR-EVENT", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4939,7 +5045,9 @@ class Writer(_XMLWriter):
         Writes complex type AR:EXCLUSIVE-AREA
         Tag variants: 'EXCLUSIVE-AREA'
         """
-        self._add_child("EXCLUSIVE-AREA")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("EXCLUSIVE-AREA", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
@@ -4950,7 +5058,9 @@ class Writer(_XMLWriter):
         Writes complex type AR:SWC-INTERNAL-BEHAVIOR
         Tag variants: 'SWC-INTERNAL-BEHAVIOR'
         """
-        self._add_child("SWC-INTERNAL-BEHAVIOR")
+        attr: TupleList = []
+        self._collect_identifiable_attributes(elem, attr)
+        self._add_child("SWC-INTERNAL-BEHAVIOR", attr)
         self._write_referrable(elem)
         self._write_multilanguage_referrable(elem)
         self._write_identifiable(elem)
-- 
2.43.0


From e1c0a43e8e70139ab0dcfff2f6b2ce2dc91130fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 15/91] fix: read and write the service kind of port interfaces

---
 src/autosar/xml/enumeration.py | 54 ++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/autosar/xml/enumeration.py b/src/autosar/xml/enumeration.py
index 554e614..87758f4 100644
--- a/src/autosar/xml/enumeration.py
+++ b/src/autosar/xml/enumeration.py
@@ -1089,6 +1089,33 @@ xml_to_enum_map: dict[str, dict] = {
         "USE-ARRAY-BASE-TYPE": ServerArgImplPolicy.USE_ARRAY_BASED_TYPE,
         "USE-VOID": ServerArgImplPolicy.USE_VOID
     },
+    "ServiceKind": {
+        "ANY-STANDARDIZED": ServiceKind.ANY_STANDARDIZED,
+        "BASIC-SOFTWARE-MODE-MANAGER": ServiceKind.BASIC_SOFTWARE_MODE_MANAGER,
+        "COM-MANAGER": ServiceKind.COM_MANAGER,
+        "CRYPTO-KEY-MANAGEMENT": ServiceKind.CRYPTO_KEY_MANAGEMENT,
+        "CRYPTO-SERVICE-MANAGER": ServiceKind.CRYPTO_SERVICE_MANAGER,
+        "DEFAULT-ERROR-TRACER": ServiceKind.DEFAULT_ERROR_TRACER,
+        "DEVELOPMENT-ERROR-TRACER": ServiceKind.DEVELOPMENT_ERROR_TRACER,
+        "DIAGNOSTIC-COMMUNICATION-MANAGER": ServiceKind.DIAGNOSTIC_COMMUNICATION_MANAGER,
+        "DIAGNOSTIC-EVENT-MANAGER": ServiceKind.DIAGNOSTIC_EVENT_MANAGER,
+        "DIAGNOSTIC-LOG-AND-TRACE": ServiceKind.DIAGNOSTIC_LOG_AND_TRACE,
+        "ECU-MANAGER": ServiceKind.ECU_MANAGER,
+        "ERROR-TRACER": ServiceKind.ERROR_TRACER,
+        "FUNCTION-INHIBITION-MANAGER": ServiceKind.FUNCTION_INHIBITION_MANAGER,
+        "HARDWARE-TEST-MANAGER": ServiceKind.HARDWARE_TEST_MANAGER,
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT": ServiceKind.INTRUSION_DETECTION_SECURITY_MANAGEMENT,
+        "J-1939-DCM": ServiceKind.J1939_DCM,
+        "J-1939-REQUEST-MANAGER": ServiceKind.J1939_REQUEST_MANAGER,
+        "NON-VOLATILE-RAM-MANAGER": ServiceKind.NON_VOLATILE_RAM_MANAGER,
+        "OPERATING-SYSTEM": ServiceKind.OPERATING_SYSTEM,
+        "SECURE-ON-BOARD-COMMUNICATION": ServiceKind.SECURE_ON_BOARD_COMMUNICATION,
+        "SYNC-BASE-TIME-MANAGER": ServiceKind.SYNC_BASE_TIME_MANAGER,
+        "V-2-X-FACILITIES": ServiceKind.V2X_FACILITIES,
+        "V-2-X-MANAGEMENT": ServiceKind.V2X_MANAGEMENT,
+        "VENDOR-SPECIFIC": ServiceKind.VENDOR_SPECIFIC,
+        "WATCH-DOG-MANAGER": ServiceKind.WATCH_DOG_MANAGER
+    },
     "SupportBufferLocking": {
         "DOES-NOT-SUPPORT-BUFFER-LOCKING": SupportBufferLocking.DOES_NOT_SUPPORT_BUFFER_LOCKING,
         "SUPPORTS-BUFFER-LOCKING": SupportBufferLocking.SUPPORTS_BUFFER_LOCKING
@@ -1497,6 +1524,33 @@ enum_to_xml_map: dict[str, list] = {
         "USE-ARRAY-BASE-TYPE",  # 1
         "USE-VOID",             # 2
     ],
+    "ServiceKind": [
+        "ANY-STANDARDIZED",                         # 0
+        "BASIC-SOFTWARE-MODE-MANAGER",              # 1
+        "COM-MANAGER",                              # 2
+        "CRYPTO-SERVICE-MANAGER",                   # 3
+        "DEFAULT-ERROR-TRACER",                     # 4
+        "DEVELOPMENT-ERROR-TRACER",                 # 5
+        "DIAGNOSTIC-COMMUNICATION-MANAGER",         # 6
+        "DIAGNOSTIC-EVENT-MANAGER",                 # 7
+        "DIAGNOSTIC-LOG-AND-TRACE",                 # 8
+        "ECU-MANAGER",                              # 9
+        "FUNCTION-INHIBITION-MANAGER",              # 10
+        "J-1939-REQUEST-MANAGER",                   # 11
+        "NON-VOLATILE-RAM-MANAGER",                 # 12
+        "OPERATING-SYSTEM",                         # 13
+        "SECURE-ON-BOARD-COMMUNICATION",            # 14
+        "SYNC-BASE-TIME-MANAGER",                   # 15
+        "VENDOR-SPECIFIC",                          # 16
+        "WATCH-DOG-MANAGER",                        # 17
+        "ERROR-TRACER",                             # 18
+        "HARDWARE-TEST-MANAGER",                    # 19
+        "V-2-X-FACILITIES",                         # 20
+        "V-2-X-MANAGEMENT",                         # 21
+        "J-1939-DCM",                               # 22
+        "CRYPTO-KEY-MANAGEMENT",                    # 23
+        "INTRUSION-DETECTION-SECURITY-MANAGEMENT"   # 24
+    ],
     "SupportBufferLocking": [
         "DOES-NOT-SUPPORT-BUFFER-LOCKING",  # 0
         "SUPPORTS-BUFFER-LOCKING"           # 1
-- 
2.43.0


From d97cf8a28183bd1b160c23065c0d179dcf8aa247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 16/91] fix: read the validity of scale constraints

---
 src/autosar/xml/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index efdb6c6..363de10 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1448,6 +1448,9 @@ class Reader:
         Tag variants: 'SCALE-CONSTR'
         """
         data = {}
+        validity = xml_element.attrib.get("VALIDITY")
+        if validity is not None:
+            data["validity"] = ar_enum.xml_to_enum("ScaleConstraintValidity", validity)
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("SHORT-LABEL")
         if xml_child is not None:
-- 
2.43.0


From d97b3a415943745d549added08c9baad2ad9eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 17/91] fix: create the physical dimension reference of a unit
 from its own argument

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index a7b52fa..d81ca8a 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1550,7 +1550,7 @@ class Unit(ARElement):
                 raise TypeError(f"display_name: Invalid type '{str(type(display_name))}'")
         if physical_dimension_ref is not None:
             if isinstance(physical_dimension_ref, str):
-                self.physical_dimension_ref = PhysicalDimensionRef(display_name)
+                self.physical_dimension_ref = PhysicalDimensionRef(physical_dimension_ref)
             elif isinstance(physical_dimension_ref, PhysicalDimensionRef):
                 self.physical_dimension_ref = physical_dimension_ref
             else:
-- 
2.43.0


From e2b1cc233f296f08ee05943ac88078a3d059b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 18/91] fix: accept a single possible error in client-server
 interfaces

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d81ca8a..b8154ed 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3784,7 +3784,7 @@ class ClientServerInterface(PortInterface):
 
         if possible_errors is not None:
             if isinstance(possible_errors, ApplicationError):
-                self.append_operation(possible_errors)
+                self.append_possible_errors(possible_errors)
             elif isinstance(possible_errors, list):
                 for possible_error in possible_errors:
                     self.append_possible_errors(possible_error)
-- 
2.43.0


From 609fa93fa62aabe02e5f5d2859cd615c3df18649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 19/91] fix: accept a list of provided com-specs without
 required com-specs in PR-ports

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b8154ed..8707123 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4822,7 +4822,7 @@ class PRPortPrototype(PortPrototype):
         if provided_com_spec is not None:
             if isinstance(provided_com_spec, ProvidePortComSpec):
                 self.append_com_spec(provided_com_spec)
-            elif isinstance(required_com_spec, (list, tuple)):
+            elif isinstance(provided_com_spec, (list, tuple)):
                 for com_spec_elem in provided_com_spec:
                     self.append_com_spec(com_spec_elem)
             else:
-- 
2.43.0


From 3cbf8467aa58ec3e1628d39fdeab9583ed3bc1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 20/91] fix: read the service kind of port interfaces

---
 src/autosar/xml/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 363de10..97af37a 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3358,7 +3358,9 @@ class Reader:
         if inner_elem is not None:
             data['is_service'] = self._read_boolean(inner_elem.text)
         xml_elements.skip('NAMESPACES')  # Not supported
-        xml_elements.skip('SERVICE-KIND')  # Implement later
+        inner_elem = xml_elements.get('SERVICE-KIND')
+        if inner_elem is not None:
+            data['service_kind'] = ar_enum.xml_to_enum('ServiceKind', inner_elem.text)
 
     def _read_nv_data_interface(self, xml_element: ElementTree.Element) -> ar_element.NvDataInterface:
         """
-- 
2.43.0


From d6a1577af93610557e3a2e9e4d30812cd6c39dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 21/91] fix: do not read port interface members as part of a
 mode declaration

---
 src/autosar/xml/reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 97af37a..4429ce8 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3221,7 +3221,6 @@ class Reader:
         self._read_referrable(child_elements, data)
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
-        self._read_port_interface(child_elements, data)
         xml_child = child_elements.get('VALUE')
         if xml_child is not None:
             data["value"] = ar_element.PositiveIntegerValue(xml_child.text).value
-- 
2.43.0


From 3e79d4e50353394066cf2412ee3f66ffff14a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 22/91] fix: read empty text values as empty text

---
 src/autosar/xml/reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 4429ce8..41956e8 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -1293,7 +1293,7 @@ class Reader:
         if v_xml is not None:
             value = self._read_number(v_xml.text)
         elif vt_xml is not None:
-            value = vt_xml.text
+            value = vt_xml.text or ""
         else:
             raise ar_exception.ParseError("COMPU-CONST without value isn't supported")
         return ar_element.CompuConst(value)
@@ -1661,7 +1661,7 @@ class Reader:
             data['max_size'] = ar_element.PositiveIntegerValue(xml_child.text).value
         xml_child = child_elements.get('BASE-TYPE-ENCODING')
         if xml_child is not None:
-            data['encoding'] = str(xml_child.text)
+            data['encoding'] = xml_child.text or ""
         xml_child = child_elements.get('MEM-ALIGNMENT')
         if xml_child is not None:
             data['alignment'] = ar_element.PositiveIntegerValue(xml_child.text).value
@@ -1671,7 +1671,7 @@ class Reader:
                 'ByteOrder', xml_child.text)
         xml_child = child_elements.get('NATIVE-DECLARATION')
         if xml_child is not None:
-            data['native_declaration'] = str(xml_child.text)
+            data['native_declaration'] = xml_child.text or ""
 
     def _read_sw_bit_representation(self, xml_element: ElementTree.Element) -> ar_element.SwBitRepresentation:
         """
@@ -2874,7 +2874,7 @@ class Reader:
         """
         xml_child = child_elements.get("VALUE")
         if xml_child is not None:
-            data["value"] = xml_child.text
+            data["value"] = xml_child.text or ""
 
     def _read_numerical_value_specification(self,
                                             xml_element: ElementTree.Element
@@ -3113,7 +3113,7 @@ class Reader:
         data["values"] = values
         for xml_child in xml_child_list:
             if xml_child.tag == "VT":
-                values.append(xml_child.text)
+                values.append(xml_child.text or "")
             elif xml_child.tag == "V":
                 number = ar_element.NumericalValue(xml_child.text)
                 if number.value_format in (ar_enum.ValueFormat.HEXADECIMAL,
-- 
2.43.0


From ce12d4b7ace49a303f3cda914abd7c86aa70b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 23/91] fix: read positive integers in octal notation

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 8707123..1a4cd1e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -162,7 +162,7 @@ class PositiveIntegerValue:
     def _validate_value(self, value: int | str) -> int:
         if isinstance(value, str):
             try:
-                value = int(value, 0)
+                value = int(value, 8) if re.fullmatch(r"\+?0[0-7]+", value) else int(value, 0)
             except ValueError as err:
                 raise TypeError("Unable to convert to integer") from err
         if isinstance(value, int):
-- 
2.43.0


From bb02e48c0f3e0a72239452ee9ea4bf76eb674916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 24/91] fix: report unsupported com-specs, values, events and
 components instead of losing their owner

---
 src/autosar/xml/reader.py | 143 ++++++++++++++++----------------------
 1 file changed, 61 insertions(+), 82 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 41956e8..5628eb6 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -2220,12 +2220,9 @@ class Reader:
         """
         xml_child = child_elements.get('INIT-VALUE')
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["init_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["init_value"] = self._read_value_specification_element(xml_grand_child)
         child_elements.skip('VARIATION-POINT')  # Not supported
 
     def _read_variable_data_prototype(self, elem: ElementTree.Element) -> ar_element.VariableDataPrototype:
@@ -2250,12 +2247,9 @@ class Reader:
         """
         xml_child = child_elements.get('INIT-VALUE')
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["init_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["init_value"] = self._read_value_specification_element(xml_grand_child)
         child_elements.skip('VARIATION-POINT')  # Not supported
 
     def _read_argument_data_prototype(self, elem: ElementTree.Element) -> ar_element.ArgumentDataPrototype:
@@ -2952,7 +2946,8 @@ class Reader:
             elements = []
             for xml_child_elem in xml_elements.findall('./*'):
                 element = self._read_value_specification_element(xml_child_elem)
-                elements.append(element)
+                if element is not None:
+                    elements.append(element)
             data["elements"] = elements
 
     def _read_record_value_specification(self,
@@ -2979,7 +2974,8 @@ class Reader:
             fields = []
             for xml_child_elem in xml_elements.findall('./*'):
                 field = self._read_value_specification_element(xml_child_elem)
-                fields.append(field)
+                if field is not None:
+                    fields.append(field)
             data["fields"] = fields
 
     def _read_value_specification_group(self, child_elements: ChildElementMap, data: dict) -> None:
@@ -3032,8 +3028,8 @@ class Reader:
         read_method = self.switcher_value_specification.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
-        else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+        self._report_unprocessed_element(xml_element)
+        return None
 
     def _read_constant_specification(self,
                                      xml_element: ElementTree.Element) -> ar_element.ConstantSpecification:
@@ -3822,12 +3818,9 @@ class Reader:
             data["data_filter"] = self._read_data_filter(xml_child)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["init_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["init_value"] = self._read_value_specification_element(xml_grand_child)
 
     def _read_nv_provider_com_spec(self,
                                    xml_element: ElementTree.Element
@@ -3848,20 +3841,14 @@ class Reader:
         """
         xml_child = child_elements.get("RAM-BLOCK-INIT-VALUE")
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["ram_block_init_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["ram_block_init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("ROM-BLOCK-INIT-VALUE")
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["rom_block_init_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["rom_block_init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("VARIABLE-REF")
         if xml_child is not None:
             data["variable_ref"] = self._read_variable_data_prototype_ref(xml_child)
@@ -3877,12 +3864,9 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["init_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("PARAMETER-REF")
         if xml_child is not None:
             data["parameter_ref"] = self._read_parameter_data_prototype_ref(xml_child)
@@ -4034,20 +4018,14 @@ class Reader:
             data["handle_timeout_type"] = ar_enum.xml_to_enum("HandleTimeout", xml_child.text)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["init_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("TIMEOUT-SUBSTITUTION-VALUE")
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["timeout_substitution_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["timeout_substitution_value"] = self._read_value_specification_element(xml_grand_child)
 
     def _read_nv_require_com_spec(self, xml_element: ElementTree.Element) -> ar_element.NvRequireComSpec:
         """
@@ -4058,12 +4036,9 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["init_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("VARIABLE-REF")
         if xml_child is not None:
             data["variable_ref"] = self._read_variable_data_prototype_ref(xml_child)
@@ -4081,12 +4056,9 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["init_value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("PARAMETER-REF")
         if xml_child is not None:
             data["parameter_ref"] = self._read_parameter_data_prototype_ref(xml_child)
@@ -4154,8 +4126,8 @@ class Reader:
         read_method = self.switcher_provided_com_spec.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
-        else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+        self._report_unprocessed_element(xml_element)
+        return None
 
     def _read_required_com_spec(self, xml_element: ElementTree.Element) -> RequirePortComSpecElement:
         """
@@ -4164,8 +4136,8 @@ class Reader:
         read_method = self.switcher_required_com_spec.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
-        else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+        self._report_unprocessed_element(xml_element)
+        return None
 
     def _read_provide_port_prototype(self, xml_element: ElementTree.Element) -> ar_element.ProvidePortPrototype:
         """
@@ -4189,7 +4161,9 @@ class Reader:
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_provided_com_spec(xml_grand_child))
+                com_spec = self._read_provided_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["com_spec"] = com_spec_list
         xml_child = child_elements.get("PROVIDED-INTERFACE-TREF")
         if xml_child is not None:
@@ -4217,7 +4191,9 @@ class Reader:
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_required_com_spec(xml_grand_child))
+                com_spec = self._read_required_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["com_spec"] = com_spec_list
         xml_child = child_elements.get("MAY-BE-UNCONNECTED")
         if xml_child is not None:
@@ -4248,13 +4224,17 @@ class Reader:
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_provided_com_spec(xml_grand_child))
+                com_spec = self._read_provided_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["provided_com_spec"] = com_spec_list
         xml_child = child_elements.get("REQUIRED-COM-SPECS")
         if xml_child is not None:
             com_spec_list = []
             for xml_grand_child in xml_child.findall("./*"):
-                com_spec_list.append(self._read_required_com_spec(xml_grand_child))
+                com_spec = self._read_required_com_spec(xml_grand_child)
+                if com_spec is not None:
+                    com_spec_list.append(com_spec)
             data["required_com_spec"] = com_spec_list
         xml_child = child_elements.get("PROVIDED-REQUIRED-INTERFACE-TREF")
         if xml_child is not None:
@@ -4450,7 +4430,7 @@ class Reader:
         xml_child = child_elements.get("COMPONENTS")
         if xml_child is not None:
             component_list = []
-            for xml_grand_child in xml_child.findall("./*"):
+            for xml_grand_child in xml_child.findall("./SW-COMPONENT-PROTOTYPE"):
                 component_list.append(self._read_sw_component_prototype(xml_grand_child))
             data["components"] = component_list
         xml_child = child_elements.get("CONNECTORS")
@@ -5612,12 +5592,9 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("VALUE")
         if xml_child is not None:
-            try:
-                xml_grand_child = xml_child.find("./*")
-                if xml_grand_child is not None:
-                    data["value"] = self._read_value_specification_element(xml_grand_child)
-            except KeyError:
-                pass
+            xml_grand_child = xml_child.find("./*")
+            if xml_grand_child is not None:
+                data["value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("VALUE-TYPE-TREF")
         if xml_child is not None:
             data["value_type"] = self._read_impl_data_type_ref(xml_child)
@@ -5748,7 +5725,9 @@ class Reader:
         if xml_child is not None:
             events = []
             for xml_grand_child in xml_child.findall("./*"):
-                events.append(self._read_rte_event_element(xml_grand_child))
+                event = self._read_rte_event_element(xml_grand_child)
+                if event is not None:
+                    events.append(event)
             data["events"] = events
         child_elements.skip("EXCLUSIVE-AREA-POLICYS")
         child_elements.skip("EXPLICIT-INTER-RUNNABLE-VARIABLES")
@@ -5784,5 +5763,5 @@ class Reader:
         read_method = self.switcher_rte_event.get(xml_element.tag, None)
         if read_method is not None:
             return read_method(xml_element)
-        else:
-            raise KeyError(f"Found no reader for '{xml_element.tag}'")
+        self._report_unprocessed_element(xml_element)
+        return None
-- 
2.43.0


From 67aa7df0868fd904aa3924402de0a6bd69214eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 25/91] fix: report unsupported content in every element with a
 fixed set of members

---
 src/autosar/xml/reader.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5628eb6..79c12d7 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -724,9 +724,10 @@ class Reader:
         """
         Reads Group AR:GENERAL-ANNOTATION
         """
-        xml_label = xml_elem.find('./LABEL')
-        xml_origin = xml_elem.find('./ANNOTATION-ORIGIN')
-        xml_text = xml_elem.find('./ANNOTATION-TEXT')
+        child_elements = ChildElementMap(xml_elem)
+        xml_label = child_elements.get('LABEL')
+        xml_origin = child_elements.get('ANNOTATION-ORIGIN')
+        xml_text = child_elements.get('ANNOTATION-TEXT')
 
         if xml_label is not None:
             data['label'] = self._read_multi_language_long_name(xml_label)
@@ -734,6 +735,7 @@ class Reader:
             data['origin'] = xml_origin.text
         if xml_text is not None:
             data['text'] = self._read_documentation_block(xml_text)
+        self._report_unprocessed_elements(child_elements)
 
     def _read_break(self, xml_elem: ElementTree.Element) -> ar_element.Break:  # pylint: disable=unused-argument
         """
@@ -1373,6 +1375,7 @@ class Reader:
         xml_child = child_elements.get("INTERNAL-CONSTRS")
         if xml_child is not None:
             data["internal"] = self._read_internal_constraint(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.DataConstraintRule(**data)
 
     def _read_internal_constraint(self, xml_element: ElementTree.Element) -> ar_element.InternalConstraint:
@@ -1384,6 +1387,7 @@ class Reader:
         data = {}
         child_elements = ChildElementMap(xml_element)
         self._read_constraint_base(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.InternalConstraint(**data)
 
     def _read_physical_constraint(self, xml_element: ElementTree.Element) -> ar_element.PhysicalConstraint:
@@ -1398,6 +1402,7 @@ class Reader:
         xml_child = child_elements.get("UNIT-REF")
         if xml_child is not None:
             data["unit_ref"] = self._read_unit_ref(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.PhysicalConstraint(**data)
 
     def _read_constraint_base(self, child_elements: ChildElementMap, data: dict[str, Any]) -> None:
@@ -1468,6 +1473,7 @@ class Reader:
             limit, interval_type = self._read_limit(xml_child)
             data["upper_limit"] = limit
             data["upper_limit_type"] = interval_type
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ScaleConstraint(**data)
 
     # --- Unit elements
@@ -1700,6 +1706,7 @@ class Reader:
         xml_child = child_elements.get("SW-DATA-DEF-PROPS-VARIANTS")
         if xml_child is not None:
             data['variants'] = self._read_sw_data_def_props_variants(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.SwDataDefProps(**data)
 
     def _read_sw_data_def_props_variants(self,
@@ -2149,6 +2156,7 @@ class Reader:
         xml_child = child_elements.get("IMPLEMENTATION-DATA-TYPE-REF")
         if xml_child is not None:
             data["impl_data_type_ref"] = self._read_impl_data_type_ref(xml_child)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.DataTypeMap(**data)
 
     def _read_data_type_mapping_set(self, xml_element: ElementTree.Element) -> ar_element.DataTypeMappingSet:
@@ -3237,6 +3245,7 @@ class Reader:
         xml_child = child_elements.get('ERROR-REACTION-POLICY')
         if xml_child is not None:
             data["error_reaction_policy"] = ar_enum.xml_to_enum("ModeErrorReactionPolicy", xml_child.text)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ModeErrorBehavior(**data)
 
     def _read_mode_transition(self, xml_element: ElementTree.Element) -> ar_element.ModeTransition:
@@ -3466,6 +3475,7 @@ class Reader:
         xml_child = child_elements.get("HANDLE-INVALID")
         if xml_child is not None:
             data["handle_invalid"] = ar_enum.xml_to_enum("HandleInvalid", xml_child.text)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.InvalidationPolicy(**data)
 
     def _read_application_error(self, xml_element: ElementTree.Element) -> ar_element.ApplicationError:
@@ -4494,6 +4504,7 @@ class Reader:
         if xml_child is not None:
             child_element = self._read_mode_declaration_group_prototype_ref(xml_child)
             data["target_mode_group"] = child_element
+        self._report_unprocessed_elements(child_elements)
         return ar_element.PModeGroupInAtomicSwcInstanceRef(**data)
 
     def _read_p_operation_in_atomic_swc_instance_ref(self,
@@ -4571,6 +4582,7 @@ class Reader:
         if xml_child is not None:
             child_element = self._read_mode_declaration_group_prototype_ref(xml_child)
             data["target_mode_group"] = child_element
+        self._report_unprocessed_elements(child_elements)
         return ar_element.RModeGroupInAtomicSwcInstanceRef(**data)
 
     def _read_r_operation_in_atomic_swc_instance_ref(self,
@@ -4881,6 +4893,7 @@ class Reader:
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExternalTriggeringPointIdent(**data)
 
     def _read_external_triggering_point(self, xml_element: ElementTree.Element) -> ar_element.ExternalTriggeringPoint:
@@ -4932,6 +4945,7 @@ class Reader:
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
         self._read_async_server_call_result_point_group(child_elements, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPointIdent(**data)
 
     def _read_mode_access_point(self, xml_element: ElementTree.Element) -> ar_element.ModeAccessPoint:
@@ -5676,6 +5690,7 @@ class Reader:
         self._read_referrable(child_elements, data)
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
+        self._report_unprocessed_elements(child_elements)
         return ar_element.ExclusiveArea(**data)
 
     def _read_swc_internal_behavior(self, xml_element: ElementTree.Element) -> ar_element.SwcInternalBehavior:
-- 
2.43.0


From 801f80530b39fb82d645b7614010ee5f11fee6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 26/91] fix: report broken delegation connectors and emphasis
 text instead of giving up the file

---
 src/autosar/xml/reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 79c12d7..ad27acf 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -770,7 +770,7 @@ class Reader:
         data = {}
         self._read_emphasis_text_attr(elem.attrib, data)
         if len(elem.findall('./*')) > 0:
-            raise NotImplementedError(
+            raise ar_exception.ParseError(
                 "Nesting inside <E> elements not yet supported")
         data['elements'] = elem.text or ""
         return ar_element.EmphasisText(**data)
@@ -4386,8 +4386,8 @@ class Reader:
         xml_child = child_elements.get("INNER-PORT-IREF")
         if xml_child is not None:
             xml_grand_child = xml_child.find("./*")
-            if xml_grand_child.tag in ("P-PORT-IN-COMPOSITION-INSTANCE-REF",
-                                       "R-PORT-IN-COMPOSITION-INSTANCE-REF"):
+            if xml_grand_child is not None and xml_grand_child.tag in ("P-PORT-IN-COMPOSITION-INSTANCE-REF",
+                                                                       "R-PORT-IN-COMPOSITION-INSTANCE-REF"):
                 data["inner_port"] = self._read_port_in_composition_type_instance_ref(xml_grand_child)
         xml_child = child_elements.get("OUTER-PORT-REF")
         if xml_child is not None:
-- 
2.43.0


From 51bde4a6c84d9f901efccc3bb265057d401aa4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 27/91] fix: make the mode declaration group the parent of its
 mode transitions

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 1a4cd1e..d269e0e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3274,7 +3274,7 @@ class ModeDeclarationGroup(ARElement):
         Appends mode transition to internal list of transitions
         """
         if isinstance(mode_transition, ModeTransition):
-            mode_transition.parent = mode_transition
+            mode_transition.parent = self
             self.mode_transitions.append(mode_transition)
         else:
             msg = f"mode_transition: Invalid type '{str(type(mode_transition))}'"
-- 
2.43.0


From 7a3cb4110642741a016f1d0a8025f361d8551a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 28/91] fix: set the parent of nested elements so that their
 references can be calculated

---
 src/autosar/xml/element.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d269e0e..0aa00c5 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1934,6 +1934,7 @@ class ImplementationDataTypeElement(Identifiable):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -1990,6 +1991,7 @@ class ImplementationDataType(AutosarDataType):
         Appends elem to sub_element list
         """
         if isinstance(elem, ImplementationDataTypeElement):
+            elem.parent = self
             self.sub_elements.append(elem)
         else:
             raise TypeError("'elem' must be of type ImplementationDataTypeElement")
@@ -2233,6 +2235,8 @@ class ApplicationArrayDataType(ApplicationCompositeDataType):
         self.element: ApplicationArrayElement | None = None                 # .ELEMENT
         self._assign_optional('dynamic_array_size_profile', dynamic_array_size_profile, str)
         self._assign_optional_strict('element', element, ApplicationArrayElement)
+        if self.element is not None:
+            self.element.parent = self
 
     def ref(self) -> ApplicationDataTypeRef | None:
         """
@@ -2293,6 +2297,7 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
         Appends element to elements list
         """
         if isinstance(element, ApplicationRecordElement):
+            element.parent = self
             self.elements.append(element)
         else:
             raise TypeError("'element' must be of type ApplicationRecordElement")
@@ -3678,6 +3683,7 @@ class ClientServerOperation(Identifiable):
         Appends argument to internal list of arguments
         """
         if isinstance(argument, ArgumentDataPrototype):
+            argument.parent = self
             self.arguments.append(argument)
         else:
             msg = f"argument: Invalid type '{str(type(argument))}'"
@@ -3870,6 +3876,8 @@ class ModeSwitchInterface(PortInterface):
         self.mode_group: ModeDeclarationGroupPrototype | None = None
 
         self._assign_optional_strict("mode_group", mode_group, ModeDeclarationGroupPrototype)
+        if self.mode_group is not None:
+            self.mode_group.parent = self
 
     def ref(self) -> PortInterfaceRef | None:
         """
@@ -5158,6 +5166,8 @@ class AtomicSoftwareComponentType(SwComponentType):
         self._internal_behavior: SwcInternalBehavior | None = None
         self.symbol_props = None  # AR:SYMBOL-PROPS
         self._assign_optional_strict("_internal_behavior", internal_behavior, SwcInternalBehavior)
+        if self._internal_behavior is not None:
+            self._internal_behavior.parent = self
         self._assign_optional_strict("symbol_props", symbol_props, SymbolProps)
 
     @property
@@ -5544,7 +5554,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = DelegationSwConnector(connector_name, inner_port_iref, outer_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
     def _create_pass_through_connector(self,
@@ -5554,7 +5564,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         connector = PassThroughSwConnector(connector_name, provide_port.ref(), require_port.ref())
         if self.find(connector_name) is not None:
             raise ValueError(f"{self.name}: Connector with name '{connector_name}' already exists")
-        self.connectors.append(connector)
+        self.append_connector(connector)
         return connector
 
 
-- 
2.43.0


From a473fe546a6a4c1fd0013e303488554398b1b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 29/91] fix: raise the error when a package to be created
 exists or isn't a package

---
 src/autosar/xml/element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 0aa00c5..f5aebba 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2901,7 +2901,7 @@ class Package(CollectableElement):
         Creates new sub-package
         """
         if name in self._collection_map:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self._collection_map[name] = package
         self.packages.append(package)
@@ -3048,6 +3048,8 @@ class PackageCollection:
             package.parent = self
             self.packages.append(package)
             self._package_dict[package.name] = package
+        else:
+            raise TypeError(f"Invalid type {str(type(package))}")
 
     def find(self, ref: str | BaseRef) -> Any:
         """
@@ -3077,7 +3079,7 @@ class PackageCollection:
         Creates new package in collection
         """
         if name in self._package_dict:
-            return ValueError(f"Package with name '{name}' already exists")
+            raise ValueError(f"Package with name '{name}' already exists")
         package = Package(name, **kwargs)
         self.append(package)
         return package
-- 
2.43.0


From 6736f38946e038335d37cfe34f0a15fd25acb93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 30/91] fix: do not fail or return the owner when a path leads
 into an element

---
 src/autosar/xml/element.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f5aebba..81ebd5f 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1950,6 +1950,16 @@ class ImplementationDataTypeElement(Identifiable):
         return AbstractImplementationDataTypeElementRef(ref_str,
                                                         ar_enum.IdentifiableSubTypes.IMPLEMENTATION_DATA_TYPE_ELEMENT)
 
+    def find(self, ref: str) -> Any:
+        """
+        Finds item by reference
+        """
+        parts = ref.partition('/')
+        elem = self._find_by_name(self.sub_elements, parts[0])
+        if (elem is not None) and (len(parts[2]) > 0):
+            return elem.find(parts[2])
+        return elem
+
 
 class ImplementationDataType(AutosarDataType):
     """
@@ -2008,8 +2018,11 @@ class ImplementationDataType(AutosarDataType):
         """
         Finds item by reference
         """
-        assert "/" not in ref
-        return self._find_by_name(self.sub_elements, ref)
+        parts = ref.partition('/')
+        elem = self._find_by_name(self.sub_elements, parts[0])
+        if (elem is not None) and (len(parts[2]) > 0):
+            return elem.find(parts[2])
+        return elem
 
 
 class DataPrototype(Identifiable):
@@ -2918,7 +2931,7 @@ class Package(CollectableElement):
         item = self._collection_map.get(parts[0], None)
         if item is not None:
             if len(parts[2]) > 0:
-                return item.find(parts[2])
+                return item.find(parts[2]) if hasattr(item, "find") else None
         return item
 
     def filter(self, *names: str) -> Iterator[ARElement]:
@@ -4938,6 +4951,8 @@ class SwComponentType(ARElement, Searchable):
         Searches port names for a match in ref
         """
         parts = ref.partition('/')
+        if len(parts[2]) > 0:
+            return None
         for elem in self.ports:
             if elem.name == parts[0]:
                 return elem
@@ -5414,6 +5429,8 @@ class CompositionSwComponentType(SwComponentType, Searchable):
         Searches components and connectors for a match in ref
         """
         parts = ref.partition('/')
+        if len(parts[2]) > 0:
+            return None
         for elem in self.components:
             if elem.name == parts[0]:
                 return elem
-- 
2.43.0


From 3495214f6bafbae85cb783ff83e2a100b3fff9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 31/91] fix: refuse references of the wrong type instead of
 storing or ignoring them

---
 src/autosar/xml/base.py    |  2 +-
 src/autosar/xml/element.py | 36 ++++++++++++++++++++----------------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/autosar/xml/base.py b/src/autosar/xml/base.py
index 06d67fe..2ad64f0 100644
--- a/src/autosar/xml/base.py
+++ b/src/autosar/xml/base.py
@@ -179,7 +179,7 @@ class BaseRef(ARObject, abc.ABC):
                 dest = list(self.accepted_sub_types())[0]
             else:
                 msg_part1 = "Value of dest cannot be None. Accepted values are: "
-                msg_part2 = ",".join([str(x) for x in sorted(list(self.accepted_sub_types()))])
+                msg_part2 = ",".join([x.name for x in sorted(self.accepted_sub_types(), key=lambda x: x.name)])
                 raise ValueError(msg_part1 + msg_part2)
         if dest in self.accepted_sub_types():
             self.dest = dest
diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 81ebd5f..b20a7ed 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1280,7 +1280,8 @@ class CompuMethod(ARElement):
         super().__init__(name, **kwargs)
         self.int_to_phys = int_to_phys        # .COMPU-INTERNAL-TO-PHYS
         self.phys_to_int = phys_to_int        # .COMPU-PHYS-TO-INTERNAL
-        self.unit_ref = unit_ref              # .UNIT-REF
+        self.unit_ref: UnitRef | None = None  # .UNIT-REF
+        self._assign_optional("unit_ref", unit_ref, UnitRef)
         self.display_format = display_format  # .DISPLAY-FORMAT
 
     def ref(self) -> CompuMethodRef | None:
@@ -1423,7 +1424,8 @@ class PhysicalConstraint(ConstraintBase):
                          monotony,
                          lower_limit_type,
                          upper_limit_type)
-        self.unit_ref = unit_ref
+        self.unit_ref: UnitRef | None = None
+        self._assign_optional("unit_ref", unit_ref, UnitRef)
 
 
 class DataConstraintRule(ARObject):
@@ -2343,8 +2345,10 @@ class DataTypeMap(ARObject):
                  appl_data_type_ref: ApplicationDataTypeRef | None = None,
                  impl_data_type_ref: ImplementationDataTypeRef | None = None,
                  ) -> None:
-        self.appl_data_type_ref = appl_data_type_ref   # .APPLICATION-DATA-TYPE-REF
-        self.impl_data_type_ref = impl_data_type_ref   # .IMPLEMENTATION-DATA-TYPE-REF
+        self.appl_data_type_ref: ApplicationDataTypeRef | None = None   # .APPLICATION-DATA-TYPE-REF
+        self.impl_data_type_ref: ImplementationDataTypeRef | None = None   # .IMPLEMENTATION-DATA-TYPE-REF
+        self._assign_optional("appl_data_type_ref", appl_data_type_ref, ApplicationDataTypeRef)
+        self._assign_optional("impl_data_type_ref", impl_data_type_ref, ImplementationDataTypeRef)
 
 
 class DataTypeMappingSet(ARElement):
@@ -5789,11 +5793,11 @@ class ArVariableInImplementationDataInstanceRef(ARObject):
                                      target_data_prototype_ref,
                                      AbstractImplementationDataTypeElementRef)
         if context_data_prototype_refs is not None:
-            if isinstance(context_data_prototype_refs, AbstractImplementationDataTypeElementRef):
-                self.append_context_data_protype_ref(context_data_prototype_refs)
-            elif isinstance(context_data_prototype_refs, list):
+            if isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                self.append_context_data_protype_ref(context_data_prototype_refs)
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: AbstractImplementationDataTypeElementRef):
         """
@@ -5835,11 +5839,11 @@ class VariableInAtomicSWCTypeInstanceRef(ARObject):
                               root_variable_data_prototype_ref, VariableDataPrototypeRef)
         self._assign_optional("target_data_prototype_ref", target_data_prototype_ref, DataPrototypeRef)
         if context_data_prototype_refs is not None:
-            if isinstance(context_data_prototype_refs, ApplicationCompositeElementDataPrototypeRef):
-                self.append_context_data_protype_ref(context_data_prototype_refs)
-            elif isinstance(context_data_prototype_refs, list):
+            if isinstance(context_data_prototype_refs, list):
                 for context_data_prototype_ref in context_data_prototype_refs:
                     self.append_context_data_protype_ref(context_data_prototype_ref)
+            else:
+                self.append_context_data_protype_ref(context_data_prototype_refs)
 
     def append_context_data_protype_ref(self, context_data_prototype_ref: ApplicationCompositeElementDataPrototypeRef):
         """
@@ -6062,11 +6066,11 @@ class ExecutableEntity(Identifiable):
             else:
                 self.append_can_enter_leave(can_enter_leave)
         if exclusive_area_nesting_order is not None:
-            if isinstance(exclusive_area_nesting_order, ExclusiveAreaNestingOrderRef):
-                self.append_exclusive_area_nesting_order(exclusive_area_nesting_order)
-            elif isinstance(exclusive_area_nesting_order, list):
+            if isinstance(exclusive_area_nesting_order, list):
                 for elem in exclusive_area_nesting_order:
                     self.append_exclusive_area_nesting_order(elem)
+            else:
+                self.append_exclusive_area_nesting_order(exclusive_area_nesting_order)
         self._assign_optional("minimum_start_interval", minimum_start_interval, float)
         self._assign_optional("reentrancy_level", reentrancy_level, ar_enum.ReentrancyLevel)
         if runs_insides is not None:
@@ -7175,11 +7179,11 @@ class RteEvent(Identifiable):
         self.start_on_event: RunnableEntityRef | None = None
 
         if disabled_modes is not None:
-            if isinstance(disabled_modes, RModeInAtomicSwcInstanceRef):
-                self.append_disabled_mode(disabled_modes)
-            elif isinstance(disabled_modes, list):
+            if isinstance(disabled_modes, list):
                 for disabled_mode in disabled_modes:
                     self.append_disabled_mode(disabled_mode)
+            else:
+                self.append_disabled_mode(disabled_modes)
         self._assign_optional("start_on_event", start_on_event, RunnableEntityRef)
 
     def append_disabled_mode(self, disabled_mode: RModeInAtomicSwcInstanceRef) -> None:
-- 
2.43.0


From 3849cd63514f6acca94d7f3cfba3b88837e5a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 32/91] fix: refuse arguments of the wrong type instead of
 silently ignoring them

---
 src/autosar/xml/element.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b20a7ed..c75a2bd 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1198,6 +1198,8 @@ class Computation(ARObject):
             self.default_value = default_value
         elif isinstance(default_value, (int, float, str)):
             self.default_value = CompuConst(default_value)
+        elif default_value is not None:
+            raise TypeError(f"Invalid type for 'default_value': {str(type(default_value))}")
 
     @classmethod
     def make_value_table(cls: "Computation",
@@ -2306,6 +2308,8 @@ class ApplicationRecordDataType(ApplicationCompositeDataType):
                 self.append(elements)
             elif isinstance(elements, list):
                 self.extend(elements)
+            else:
+                raise TypeError(f"Invalid type for 'elements': {str(type(elements))}")
 
     def append(self, element: ApplicationRecordElement) -> None:
         """
@@ -2465,6 +2469,8 @@ class SwValues(ARObject):
             elif isinstance(values, list):
                 for value in values:
                     self.append(value)
+            else:
+                raise TypeError(f"Invalid type for 'values': {str(type(values))}")
 
     def append(self, value: SwValueElement) -> None:
         """
@@ -2727,6 +2733,8 @@ class ArrayValueSpecification(ValueSpecification):
             elif isinstance(elements, list):
                 for element in elements:
                     self.append(element)
+            else:
+                raise TypeError(f"Invalid type for 'elements': {str(type(elements))}")
 
     def append(self, element: ValueSpecificationElement):
         """
@@ -2755,6 +2763,8 @@ class RecordValueSpecification(ValueSpecification):
             elif isinstance(fields, list):
                 for field in fields:
                     self.append(field)
+            else:
+                raise TypeError(f"Invalid type for 'fields': {str(type(fields))}")
 
     def append(self, field: ValueSpecificationElement):
         """
@@ -3422,7 +3432,7 @@ class SenderReceiverInterface(DataInterface):
                 for data_element in data_elements:
                     self.append_data_element(data_element)
             else:
-                msg = f"data_elements: Invalid type '{str(type(data_element))}'"
+                msg = f"data_elements: Invalid type '{str(type(data_elements))}'"
                 raise TypeError(msg + ". Expected 'VariableDataPrototype' or list[VariableDataPrototype]")
         if invalidation_policies is not None:
             if isinstance(invalidation_policies, InvalidationPolicy):
-- 
2.43.0


From 7d061008da2c1f349b0f1c4a951d9f1a9e01fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 33/91] fix: refuse compu scale content that cannot be written

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index c75a2bd..0a415a6 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1150,6 +1150,8 @@ class CompuScale(ARObject):
                  inverse_value: CompuConst | None = None,
                  lower_limit_type: ar_enum.IntervalType = ar_enum.IntervalType.CLOSED,
                  upper_limit_type: ar_enum.IntervalType = ar_enum.IntervalType.CLOSED) -> None:
+        if content is not None and not isinstance(content, (CompuConst, CompuRational)):
+            raise TypeError(f"Invalid type for 'content': {str(type(content))}")
         self.content = content                      # CHOICE(COMPU-SCALE-CONSTANT-CONTENTS, COMPU-SCALE-RATIONAL-FORMULA) # noqa E501 pylint: disable=C0301
         self.lower_limit = lower_limit              # .LOWER-LIMIT
         self.upper_limit = upper_limit              # .UPPER-LIMIT
-- 
2.43.0


From 8d5f28713a7f920fcce6a64429913b2e2879d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 34/91] fix: refuse values of another enumeration instead of
 writing them

---
 src/autosar/xml/element.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 0a415a6..ca8f983 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -509,8 +509,10 @@ class EmphasisText(ARObject):
                  type: ar_enum.EmphasisType = None) -> None:  # pylint: disable=redefined-builtin
         self.elements = []
         self.color = color  # Attribute @COLOR
-        self.font = font  # Attribute @FONT
-        self.type = type  # Attribute @TYPE
+        self.font = None  # Attribute @FONT
+        self.type = None  # Attribute @TYPE
+        self._assign_optional_strict('font', font, ar_enum.EmphasisFont)
+        self._assign_optional_strict('type', type, ar_enum.EmphasisType)
         if elements is not None:
             if isinstance(elements, str):
                 self.elements.append(elements)
@@ -1355,7 +1357,8 @@ class ScaleConstraint(LimitObject):
         super().__init__(lower_limit, upper_limit, lower_limit_type, upper_limit_type)
         self.label = label
         self.desc = desc
-        self.validity = validity
+        self.validity: ar_enum.ScaleConstraintValidity | None = None
+        self._assign_optional_strict('validity', validity, ar_enum.ScaleConstraintValidity)
 
 
 class ConstraintBase(LimitObject):
@@ -1376,7 +1379,8 @@ class ConstraintBase(LimitObject):
         self.scale_constrs = list(scale_constrs) if scale_constrs else []
         self.max_gradient = max_gradient
         self.max_diff = max_diff
-        self.monotony = monotony
+        self.monotony: ar_enum.Monotony | None = None
+        self._assign_optional_strict('monotony', monotony, ar_enum.Monotony)
 
 
 class InternalConstraint(ConstraintBase):
@@ -1612,7 +1616,8 @@ class SwBaseType(BaseType):
         self.max_size = max_size
         self.encoding = encoding
         self.alignment = alignment
-        self.byte_order = byte_order
+        self.byte_order: ar_enum.ByteOrder | None = None
+        self._assign_optional_strict('byte_order', byte_order, ar_enum.ByteOrder)
         self.native_declaration = native_declaration
 
     def ref(self) -> SwBaseTypeRef | None:
-- 
2.43.0


From ed4d36c1c4e29999805c9c60ea8f1c565584ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 35/91] fix: refuse elements of another class in annotations
 and compu methods

---
 src/autosar/xml/element.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index ca8f983..d5b9fda 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1048,9 +1048,11 @@ class GeneralAnnotation(ARObject):
                  origin: str | None = None,
                  text: DocumentationBlock | None = None) -> None:
         super().__init__()
-        self.label = label  # .LABEL
+        self.label: MultilanguageLongName | None = None  # .LABEL
         self.origin = origin  # .ANNOTATION-ORIGIN
-        self.text = text  # .ANNOTATION-TEXT
+        self.text: DocumentationBlock | None = None  # .ANNOTATION-TEXT
+        self._assign_optional_strict('label', label, MultilanguageLongName)
+        self._assign_optional_strict('text', text, DocumentationBlock)
 
 
 class Annotation(GeneralAnnotation):
@@ -1284,8 +1286,10 @@ class CompuMethod(ARElement):
                  display_format: str | None = None,
                  **kwargs) -> None:
         super().__init__(name, **kwargs)
-        self.int_to_phys = int_to_phys        # .COMPU-INTERNAL-TO-PHYS
-        self.phys_to_int = phys_to_int        # .COMPU-PHYS-TO-INTERNAL
+        self.int_to_phys: Computation | None = None  # .COMPU-INTERNAL-TO-PHYS
+        self.phys_to_int: Computation | None = None  # .COMPU-PHYS-TO-INTERNAL
+        self._assign_optional_strict("int_to_phys", int_to_phys, Computation)
+        self._assign_optional_strict("phys_to_int", phys_to_int, Computation)
         self.unit_ref: UnitRef | None = None  # .UNIT-REF
         self._assign_optional("unit_ref", unit_ref, UnitRef)
         self.display_format = display_format  # .DISPLAY-FORMAT
-- 
2.43.0


From 28487de51803068affb3a09ec0d165c477ac5a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 36/91] fix: write booleans given as numbers as 0 or 1

---
 src/autosar/xml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index d8042d6..6a4a22b 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -160,7 +160,7 @@ class _XMLWriter:
         Converts number to string
         """
         if isinstance(number, int):
-            return str(number)
+            return str(int(number))  # also covers bool (0 or 1)
         elif isinstance(number, float):
             return self._format_float(number)
         elif isinstance(number, ar_element.NumericalValue):
-- 
2.43.0


From 237710c2dca2ac174150de5c0a54be70eb861312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 37/91] fix: refuse value data whose default pattern would be
 ignored

---
 src/autosar/xml/element.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d5b9fda..02c18f5 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -2637,14 +2637,16 @@ class ValueSpecification(ARObject):
         label = None
         default_pattern = None
         if isinstance(data, tuple):
+            if len(data) not in (2, 3):
+                raise ValueError(f"Tuple must have 2 or 3 elements: {repr(data)}")
             if not isinstance(data[0], str):
                 raise TypeError("First tuple element must be a string")
             if len(data) == 2:
                 label, value = data
-            elif len(data) == 3:
-                label, value, default_pattern = data
             else:
-                raise ValueError(f"Too many elements in tuple: {repr(data)}")
+                label, value, default_pattern = data
+                if value is not None:
+                    raise ValueError(f"Second element of a 3-tuple must be None: {repr(data)}")
         else:
             value = data
         return ValueSpecification._make_from_args(label, value, default_pattern)
-- 
2.43.0


From 59b47ff84a511e821bd9f5b1a3d07b5a1ef175ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 38/91] fix: accept a single suffix filter in document mappings

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a343455..a47e201 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -47,7 +47,7 @@ class PackageToDocumentMapping:
         self.element_types: type | tuple[type] = element_types
         self.suffix_filters: list[str] = []
         if isinstance(suffix_filters, str):
-            self.element_types.append(suffix_filters)
+            self.suffix_filters.append(suffix_filters)
         else:
             for suffix_filter in suffix_filters:
                 assert isinstance(suffix_filter, str)
-- 
2.43.0


From b7eee23c6ca71e57d50498292a97333db8a549fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:16 +0000
Subject: [PATCH 39/91] fix: allow creating a document without packages

---
 src/autosar/xml/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index a47e201..bc9c65a 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -27,7 +27,7 @@ class DocumentConfig:
         self.package_refs: list[str] = []
         if isinstance(package_refs, str):
             self.package_refs.append(package_refs)
-        else:
+        elif package_refs is not None:
             for package_ref in package_refs:
                 assert isinstance(package_ref, str)
                 self.package_refs.append(package_ref)
-- 
2.43.0


From 40375332a7aefe4924423a1d3c785399f9cd59c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 40/91] fix: write sub-packages in their place, and leave the
 workspace unchanged when documents are written

---
 src/autosar/xml/workspace.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index bc9c65a..56f62ec 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -227,16 +227,25 @@ class Workspace(ar_element.PackageCollection):
                                     writer: Writer,
                                     schema_version: int,
                                     document_config: DocumentConfig) -> None:
-        document = document_config.document
+        document = ar_document.Document(schema_version=schema_version)
+        document_config.document = document
         file_path = document_config.file_path
         package_refs = document_config.package_refs
-        document.schema_version = schema_version
         for package_ref in package_refs:
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-            document.append(package)
+                if document.find(str(package.ref())) is package:
+                    continue  # Already there, as part of another package
+                parent = package.parent
+                parent_ref = str(package.ref()).rpartition("/")[0]
+                # Sub-packages are placed below (otherwise empty) packages with the names of their parents
+                container = document.make_packages(parent_ref) if parent_ref else document
+                container.append(package)
+                package.parent = parent  # It still belongs to the workspace
+            else:
+                document.append(package)
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
@@ -269,6 +278,7 @@ class Workspace(ar_element.PackageCollection):
                 new_package = document.make_packages(str(package.ref()))
                 for element in sorted(element_list, key=lambda x: x.name):
                     new_package.append(element)
+                    element.parent = package  # It still belongs to the workspace
                 if self.document_root is not None:
                     file_path = os.path.join(self.document_root, document_name)
                 else:
-- 
2.43.0


From cbff266ef85d94eecf69431baac1fb28eb731c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 41/91] fix: name the unknown elements of a require-port
 com-spec instead of raising TypeError

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 02c18f5..5af2f5b 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -4463,7 +4463,7 @@ class RequirePortComSpec(ARObject):
                                                                              **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    element_names = ', '.join(list[unprocessed])
+                    element_names = ', '.join(list(unprocessed))
                     msg = f"{port_interface.name}: Data element(s) not found in port interface: '{element_names}'"
                     raise ValueError(msg)
                 return com_spec_list
@@ -4486,7 +4486,7 @@ class RequirePortComSpec(ARObject):
                         com_spec = ClientComSpec(operation_ref=operation.ref(), **com_spec_args)
                         com_spec_list.append(com_spec)
                 if len(unprocessed) > 0:
-                    operations = ', '.join(list[unprocessed])
+                    operations = ', '.join(list(unprocessed))
                     raise ValueError(f"{port_interface.name}: Operation(s) not found in port interface: '{operations}'")
                 return com_spec_list
         elif isinstance(port_interface, ModeSwitchInterface):
-- 
2.43.0


From f7755746c1a2bd301f87d1178b71c8bf93612876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 42/91] fix: keep a single com-spec object given to
 create_p_port or create_r_port

---
 src/autosar/xml/element.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 5af2f5b..df1578f 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5015,8 +5015,8 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(ProvidePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
-                com_spec = None  # Clear when not implemented
+            elif not isinstance(com_spec, ProvidePortComSpec):
+                raise TypeError(f"com_spec: Unsupported type: {str(type(com_spec))}")
         port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
         self.append_port(port)
         return port
@@ -5064,8 +5064,8 @@ class SwComponentType(ARElement, Searchable):
                 if len(unprocessed):
                     processed.extend(RequirePortComSpec.make_from_port_interface(port_interface, **unprocessed))
                 com_spec = processed
-            else:
-                com_spec = None  # Clear when not implemented
+            elif not isinstance(com_spec, RequirePortComSpec):
+                raise TypeError(f"com_spec: Unsupported type: {str(type(com_spec))}")
         port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
         self.append_port(port)
         return port
-- 
2.43.0


From b9b06ae61db03d5a195181818e84609be153a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 43/91] fix: allow creating a provide-port without port
 interface, as its default says

---
 src/autosar/xml/element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index df1578f..44ea8e3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5017,7 +5017,8 @@ class SwComponentType(ARElement, Searchable):
                 com_spec = processed
             elif not isinstance(com_spec, ProvidePortComSpec):
                 raise TypeError(f"com_spec: Unsupported type: {str(type(com_spec))}")
-        port = ProvidePortPrototype(name, port_interface.ref(), com_spec, **kwargs)
+        port_interface_ref = None if port_interface is None else port_interface.ref()
+        port = ProvidePortPrototype(name, port_interface_ref, com_spec, **kwargs)
         self.append_port(port)
         return port
 
@@ -5102,7 +5103,8 @@ class SwComponentType(ARElement, Searchable):
             if isinstance(required_com_spec, dict):
                 required_com_spec = RequirePortComSpec.make_from_port_interface(port_interface, **required_com_spec)
                 assert required_com_spec is not None
-        port = PRPortPrototype(name, port_interface.ref(), provided_com_spec, required_com_spec, **kwargs)
+        port_interface_ref = None if port_interface is None else port_interface.ref()
+        port = PRPortPrototype(name, port_interface_ref, provided_com_spec, required_com_spec, **kwargs)
         self.append_port(port)
         return port
 
-- 
2.43.0


From 01562f83b3a55f569e7fe75af2755c185c3ea664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 44/91] fix: refuse two com-specs for the same element instead
 of dropping the first one

---
 src/autosar/xml/element.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 44ea8e3..658d269 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5009,6 +5009,8 @@ class SwComponentType(ARElement, Searchable):
                         if not len(elem) == 2:
                             raise NotImplementedError("Com-spec element must be a 2-tuple containing [str, dict]. "
                                                       f"Got tuple with length {len(elem)}")
+                        if elem[0] in unprocessed:
+                            raise ValueError(f"com_spec: '{elem[0]}' is given more than once")
                         unprocessed[elem[0]] = elem[1]
                     else:
                         raise TypeError(f"Unsupported type in com-spec element: {str(type(elem))}")
@@ -5059,6 +5061,8 @@ class SwComponentType(ARElement, Searchable):
                         if not len(elem) == 2:
                             raise NotImplementedError("Com-spec element must be a 2-tuple containing [str, dict]. "
                                                       f"Got tuple with length {len(elem)}")
+                        if elem[0] in unprocessed:
+                            raise ValueError(f"com_spec: '{elem[0]}' is given more than once")
                         unprocessed[elem[0]] = elem[1]
                     else:
                         raise TypeError(f"Unsupported type in com-spec element: {str(type(elem))}")
-- 
2.43.0


From 0c8a0cf4ac4f4009a18bceb367d1e390577089fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 45/91] fix: create_connector reports an unknown component
 instead of crashing

---
 src/autosar/xml/element.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 658d269..f3d24e5 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5562,6 +5562,7 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                             msg = f"Component '{component.name}' does not seem to have a port with name '{port_name}'"
                             raise ValueError(msg)
                         return port, elem
+                raise ValueError(f"Component '{self.name}' does not seem to have a component with name '{parts[0]}'")
             else:
                 raise ValueError(f"Invalid format: '{port_ref}'")
         else:  # Format is 'port_name'
-- 
2.43.0


From fe103bb53f4e604d4638ef1ecc90e464b261b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 46/91] fix: an empty reference does not crash lookups

---
 src/autosar/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/base.py b/src/autosar/base.py
index 5471a6c..0a59f65 100644
--- a/src/autosar/base.py
+++ b/src/autosar/base.py
@@ -9,7 +9,7 @@ def split_ref(ref: str) -> list[str] | None:
     """Splits a string separated with slashes and automatially removes leading slash"""
     sep = "/"
     if isinstance(ref, str):
-        return ref[1:].split(sep) if ref[0] == sep else ref.split(sep)
+        return ref[1:].split(sep) if ref[:1] == sep else ref.split(sep)
     return None
 
 
-- 
2.43.0


From cfae65a27c2cd3c7e0f0dfe375399c02fab41e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 47/91] fix: create_connector joins provide-require ports of
 inner components

---
 src/autosar/xml/element.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f3d24e5..110d614 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5523,10 +5523,16 @@ class CompositionSwComponentType(SwComponentType, Searchable):
             provider_component: SwComponentPrototype = None
             provide_port: PortPrototype = None
             require_port: PortPrototype = None
-            if isinstance(port1, RequirePortPrototype) and isinstance(port2, ProvidePortPrototype):
+            if isinstance(port1, RequirePortPrototype) and isinstance(port2, (ProvidePortPrototype, PRPortPrototype)):
                 requester_component, provider_component = component1, component2
                 require_port, provide_port = port1, port2
-            elif isinstance(port1, ProvidePortPrototype) and isinstance(port2, RequirePortPrototype):
+            elif isinstance(port1, PRPortPrototype) and isinstance(port2, ProvidePortPrototype):
+                requester_component, provider_component = component1, component2
+                require_port, provide_port = port1, port2
+            elif isinstance(port1, (ProvidePortPrototype, PRPortPrototype)) and isinstance(port2, RequirePortPrototype):
+                requester_component, provider_component = component2, component1
+                require_port, provide_port = port2, port1
+            elif isinstance(port1, ProvidePortPrototype) and isinstance(port2, PRPortPrototype):
                 requester_component, provider_component = component2, component1
                 require_port, provide_port = port2, port1
             elif isinstance(port1, RequirePortPrototype) and isinstance(port2, RequirePortPrototype):
-- 
2.43.0


From 20a0b0c828eea90e72c199a73bbaed1d238caf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 48/91] fix: create_connector respects the direction of the
 ports of the composition

---
 src/autosar/xml/element.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 110d614..7cf6749 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -5605,6 +5605,9 @@ class CompositionSwComponentType(SwComponentType, Searchable):
                                      inner_component: SwComponentPrototype,
                                      inner_port: PortPrototype,
                                      outer_port: PortPrototype) -> DelegationSwConnector:
+        if ((isinstance(inner_port, ProvidePortPrototype) and isinstance(outer_port, RequirePortPrototype)) or
+                (isinstance(inner_port, RequirePortPrototype) and isinstance(outer_port, ProvidePortPrototype))):
+            raise ValueError('cannot create delegation connector between a provide-port and a require-port')
         if isinstance(outer_port, ProvidePortPrototype):
             connector_name = '_'.join([inner_component.name, inner_port.name, outer_port.name])
         else:
@@ -5619,6 +5622,12 @@ class CompositionSwComponentType(SwComponentType, Searchable):
     def _create_pass_through_connector(self,
                                        provide_port: ProvidePortPrototype,
                                        require_port: RequirePortPrototype) -> PassThroughSwConnector:
+        if isinstance(provide_port, RequirePortPrototype) or isinstance(require_port, ProvidePortPrototype):
+            provide_port, require_port = require_port, provide_port
+        if isinstance(provide_port, RequirePortPrototype):
+            raise ValueError('cannot create pass-through connector between two require-ports')
+        if isinstance(require_port, ProvidePortPrototype):
+            raise ValueError('cannot create pass-through connector between two provide-ports')
         connector_name = '_'.join([provide_port.name, require_port.name])
         connector = PassThroughSwConnector(connector_name, provide_port.ref(), require_port.ref())
         if self.find(connector_name) is not None:
-- 
2.43.0


From 07b46e70c09c6eb6db45c3cdfae93ac116ddd8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 49/91] fix: event names are only numbered when they clash with
 the whole name

---
 src/autosar/xml/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 7cf6749..b7415a7 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -322,9 +322,9 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
     has_index = False
     highest_index = 0
     unpatched_elem: Referrable | None = None
-    expr = re.compile(base_name + r'_(\d+)')
+    expr = re.compile(re.escape(base_name) + r'_(\d+)')
     for element in elements:
-        result = expr.match(element.name)
+        result = expr.fullmatch(element.name)
         if result is not None:
             has_index = True
             index = int(result.group(1))
-- 
2.43.0


From 15eda4a850a7b0ac95023d245d7ea3da1379f68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 50/91] fix: numbering of clashing names gives unique names

---
 src/autosar/xml/element.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b7415a7..e22fac0 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -332,7 +332,11 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
         elif element.name == base_name:
             unpatched_elem = element
     if unpatched_elem is not None:
-        unpatched_elem.name = '_'.join([unpatched_elem.name, '0'])
+        suffix = 0
+        if any(element.name == base_name + '_0' for element in elements):
+            highest_index += 1
+            suffix = highest_index
+        unpatched_elem.name = '_'.join([unpatched_elem.name, str(suffix)])
     if has_index or unpatched_elem is not None:
         return '_'.join([base_name, str(highest_index + 1)])
     else:
-- 
2.43.0


From 20bc56f884dfe067e8fe11282e91fc08f095e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 51/91] fix: a refused event does not rename the events that
 exist already

---
 src/autosar/xml/element.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index e22fac0..122c5c5 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8179,8 +8179,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " background_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = BackgroundEvent(unique_event_name, runnable.ref(), **kwargs)
+        event = BackgroundEvent(event_name, runnable.ref(), **kwargs)
+        event.name = self._make_unique_event_name(event.name)
         self.append_event(event)
         return event
 
@@ -8226,12 +8226,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " data_receive_error_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = DataReceiveErrorEvent.make(unique_event_name,
+        event = DataReceiveErrorEvent.make(event_name,
                                            runnable.ref(),
                                            context_port.ref(),
                                            target_data_element.ref(),
                                            **kwargs)
+        event.name = self._make_unique_event_name(event.name)
         self.append_event(event)
         return event
 
@@ -8277,12 +8277,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " data_receive_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = DataReceivedEvent.make(unique_event_name,
+        event = DataReceivedEvent.make(event_name,
                                        runnable.ref(),
                                        context_port.ref(),
                                        target_data_element.ref(),
                                        **kwargs)
+        event.name = self._make_unique_event_name(event.name)
         self.append_event(event)
         return event
 
@@ -8344,8 +8344,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " init_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = InitEvent(unique_event_name, runnable.ref(), **kwargs)
+        event = InitEvent(event_name, runnable.ref(), **kwargs)
+        event.name = self._make_unique_event_name(event.name)
         self.append_event(event)
         return event
 
@@ -8388,12 +8388,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " operation_invoked_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = OperationInvokedEvent.make(unique_event_name,
+        event = OperationInvokedEvent.make(event_name,
                                            runnable.ref(),
                                            context_port.ref(),
                                            target_provided_operation.ref(),
                                            **kwargs)
+        event.name = self._make_unique_event_name(event.name)
         self.append_event(event)
         return event
 
@@ -8431,12 +8431,12 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_manager_error_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = SwcModeManagerErrorEvent.make(unique_event_name,
+        event = SwcModeManagerErrorEvent.make(event_name,
                                               runnable.ref(),
                                               context_port.ref(),
                                               context_mode_declaration_group.ref(),
                                               **kwargs)
+        event.name = self._make_unique_event_name(event.name)
         self.append_event(event)
         return event
 
@@ -8470,14 +8470,13 @@ class SwcInternalBehavior(InternalBehavior):
                       " swc_mode_switch_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
         expected_formats = "Expected formats: '<PortName>', '<PortName>/<ModeDeclarationName>', tuple[str, str]"
         if isinstance(mode_ref, str):
             if len(mode_ref) == 0:
                 raise ValueError("mode_ref: Invalid argument. " + expected_formats)
             context_port, context_mode_declaration_group, target_mode_declaration = (
                 self._get_swc_mode_switch_event_args(workspace, swc, mode_ref))
-            event = SwcModeSwitchEvent.make(unique_event_name,
+            event = SwcModeSwitchEvent.make(event_name,
                                             runnable.ref(),
                                             activation,
                                             context_port.ref(),
@@ -8499,13 +8498,14 @@ class SwcInternalBehavior(InternalBehavior):
                                                                      target_mode_declaration.ref()))
                 else:
                     raise TypeError(f"mode_ref: Invalid type '{str(type(ref))}'. " + expected_formats)
-            event = SwcModeSwitchEvent(unique_event_name,
+            event = SwcModeSwitchEvent(event_name,
                                        runnable.ref(),
                                        activation,
                                        (instance_refs[0], instance_refs[1]),
                                        **kwargs)
         else:
             raise TypeError(f"mode_ref: Unsupported type '{str(type(mode_ref))}'")
+        event.name = self._make_unique_event_name(event.name)
         self.append_event(event)
         return event
 
@@ -8532,8 +8532,8 @@ class SwcInternalBehavior(InternalBehavior):
                       " timing_event_prefix is not set in behavior settings"
                 raise RuntimeError(msg)
         assert isinstance(event_name, str)
-        unique_event_name = self._make_unique_event_name(event_name)
-        event = TimingEvent(unique_event_name, runnable.ref(), period, offset, **kwargs)
+        event = TimingEvent(event_name, runnable.ref(), period, offset, **kwargs)
+        event.name = self._make_unique_event_name(event.name)
         self.append_event(event)
         return event
 
-- 
2.43.0


From 8ef03aba12719903411f45ea108bb2a0ab28c189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 52/91] fix: create_runnable keeps references to exclusive
 areas given among names

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 122c5c5..d3f51c6 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8113,6 +8113,8 @@ class SwcInternalBehavior(InternalBehavior):
                         names[elem] = False
             if names:
                 exclusive_area_refs: ExclusiveAreaRef = []
+                if not isinstance(can_enter_leave, str):
+                    exclusive_area_refs.extend(elem for elem in can_enter_leave if not isinstance(elem, str))
                 for area in self.exclusive_areas:
                     if area.name in names:
                         names[area.name] = True  # Marks it as handled
-- 
2.43.0


From a6213d43a1fdaa274d116d810c55ee4b012c7483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 53/91] fix: create_port_access modified the dictionaries given
 by its caller

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index d3f51c6..696cc57 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6759,6 +6759,8 @@ class RunnableEntity(ExecutableEntity):
         for elem in elements:
             if isinstance(elem, tuple):
                 text, access_point_args = elem
+                if access_point_args is not None:
+                    access_point_args = dict(access_point_args)  # Don't modify the argument of the caller
             else:
                 text, access_point_args = elem, None
             options = PortAccessOptions()
-- 
2.43.0


From 42a0224923a6e86ce8ab4ec1ab057f7d5a69ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 54/91] fix: create_port_access failed for a parameter port
 without parameter name

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 696cc57..22d12ae 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6954,7 +6954,7 @@ class RunnableEntity(ExecutableEntity):
         target_data = None
         if len(parameter_name) == 0:
             if len(port_interface.parameters) == 1:
-                target_data = port_interface.parameter[0]
+                target_data = port_interface.parameters[0]
         else:
             for element in port_interface.parameters:
                 if element.name == parameter_name:
-- 
2.43.0


From 9a40cbb0b21900b9a630b6784327945d0541ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 55/91] fix: settings of a mode access point were dropped when
 no prefix was given

---
 src/autosar/xml/element.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 22d12ae..b301d58 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6915,18 +6915,18 @@ class RunnableEntity(ExecutableEntity):
             del access_point_args["name"]
         if isinstance(port, RequirePortPrototype):
             mode_group_iref = RModeGroupInAtomicSwcInstanceRef(port.ref(), mode_group.ref())
-            if access_type is None:
+            if access_type is None and name is None and not access_point_args:
                 access_point = ModeAccessPoint(mode_group=mode_group_iref)
-            elif access_type == ar_enum.ModeAccess.ACCESS:
+            elif access_type in (None, ar_enum.ModeAccess.ACCESS):
                 if name is None:
                     name = "_".join([settings.get_value("mode_access_point_prefix"), port.name, mode_group.name])
                 ident = ModeAccessPointIdent.make_with_args(name, access_point_args)
                 access_point = ModeAccessPoint(ident=ident, mode_group=mode_group_iref)
         elif isinstance(port, ProvidePortPrototype):
             mode_group_iref = PModeGroupInAtomicSwcInstanceRef(port.ref(), mode_group.ref())
-            if access_type is None:
+            if access_type is None and name is None and not access_point_args:
                 access_point = ModeAccessPoint(mode_group=mode_group_iref)
-            elif access_type == ar_enum.ModeAccess.ACCESS:
+            elif access_type in (None, ar_enum.ModeAccess.ACCESS):
                 if name is None:
                     name = "_".join([settings.get_value("mode_access_point_prefix"), port.name, mode_group.name])
                 ident = ModeAccessPointIdent.make_with_args(name, access_point_args)
-- 
2.43.0


From b796fcaaa9230a0134a50a9bef4d486aa8257acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 56/91] fix: create_port_api_options added options before it
 refused an unknown port name

---
 src/autosar/xml/element.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b301d58..2c432cc 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8589,23 +8589,23 @@ class SwcInternalBehavior(InternalBehavior):
         """
         swc = self.get_valid_parent()
         # names of ports to process.
-        # The bool is used to check if it has been handled or not
-        ports_to_process: dict[str, bool] = {}
+        ports_to_process: list[str] = []
         if isinstance(port_name, str):
             if port_name == "*":
-                for port in swc.ports:
-                    ports_to_process[port.name] = False
+                ports_to_process.extend(port.name for port in swc.ports)
             else:
-                ports_to_process[port_name] = False
+                ports_to_process.append(port_name)
         elif isinstance(port_name, Iterable):
-            for name in port_name:
-                ports_to_process[name] = False
+            ports_to_process.extend(port_name)
         else:
             raise TypeError(f"port_name: Expected type string or list of string. Got {str(type(port_name))}")
         if len(ports_to_process):
+            known_names = {port.name for port in swc.ports}
+            for key in ports_to_process:
+                if key not in known_names:
+                    raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")
             for port in sorted(swc.ports, key=lambda x: x.name.lower()):
                 if port.name in ports_to_process:
-                    ports_to_process[port.name] = True
                     option = self._create_port_api_option_internal(port,
                                                                    enable_take_address,
                                                                    indirect_api,
@@ -8614,9 +8614,6 @@ class SwcInternalBehavior(InternalBehavior):
                                                                    supported_features,
                                                                    transformer_status_forwarding)
                     self.append_port_api_option(option)
-            for key, value in ports_to_process.items():
-                if not value:
-                    raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")
 
     def _create_port_api_option_internal(self,
                                          port: PortPrototypeElement,
-- 
2.43.0


From bee2ba76cfa474c4b9a8fc7dbcfa49376f03585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 57/91] fix: create_port_access ignored access options that
 contradict the port

---
 src/autosar/xml/element.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 2c432cc..da073a9 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6765,8 +6765,10 @@ class RunnableEntity(ExecutableEntity):
                 text, access_point_args = elem, None
             options = PortAccessOptions()
             parts = text.partition(":")
+            prefix: str | None = None
             if parts[1] == ":":
-                self._parse_port_access_prefix(parts[0].upper(), options)
+                prefix = parts[0].upper()
+                self._parse_port_access_prefix(prefix, options)
                 port_arg = parts[2].lstrip()
             else:
                 port_arg = parts[0]
@@ -6776,6 +6778,7 @@ class RunnableEntity(ExecutableEntity):
             if port is None:
                 raise ValueError(f"Invalid port name: {port_name}")
             port_interface = workspace.get_port_interface(port.port_interface_ref)
+            self._check_port_access_prefix(port, port_interface, prefix)
             self._create_port_access_internal(port, port_interface, ref[2], settings, options, access_point_args)
 
     def _parse_port_access_prefix(self, text: str, options: PortAccessOptions) -> None:
@@ -6803,6 +6806,34 @@ class RunnableEntity(ExecutableEntity):
         else:
             raise ValueError(f"Unrecognized access option: '{text}'")
 
+    def _check_port_access_prefix(self,
+                                  port: PortPrototypeElement,
+                                  port_interface: PortInterface,
+                                  prefix: str | None) -> None:
+        """
+        Verifies that the kind of access (None is the default) is possible for the port
+        """
+        is_provide = isinstance(port, ProvidePortPrototype)
+        accepted: tuple[str | None, ...] = (None,)
+        if isinstance(port_interface, (SenderReceiverInterface, NvDataInterface)):
+            if is_provide:
+                accepted = (None, "WRITE", "SEND")
+            elif isinstance(port, RequirePortPrototype):
+                accepted = (None, "READ", "ARGUMENT", "ARG", "VALUE", "VAL")
+        elif isinstance(port_interface, ModeSwitchInterface):
+            if is_provide:
+                accepted = (None, "ACCESS", "SWITCH")
+            elif isinstance(port, RequirePortPrototype):
+                accepted = (None, "ACCESS")
+            else:
+                raise ValueError(f"Mode access is not supported for port '{port.name}'")
+        elif isinstance(port_interface, ClientServerInterface):
+            if is_provide:
+                raise ValueError(f"Operations of '{port.name}' can't be called: it's a provide-port")
+            accepted = (None, "SYNC", "ASYNC")
+        if prefix not in accepted:
+            raise ValueError(f"Access option '{prefix}' is not possible for port '{port.name}'")
+
     def _create_port_access_internal(self,
                                      port: PortPrototypeElement,
                                      port_interface: PortInterface,
-- 
2.43.0


From d0c76634b92b3c568a935e1073d2d1f6e9aad024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:36 +0000
Subject: [PATCH 58/91] fix: elements appended to a RunnableEntity could get
 the same name

---
 src/autosar/xml/element.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index da073a9..b4d16cb 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -343,6 +343,15 @@ def make_unique_name_in_list(elements: list[Referrable], base_name: str):
         return base_name
 
 
+def make_element_unique_in_list(elements: list[Referrable], new_element: Referrable) -> None:
+    """
+    Makes sure that new_element can be added to the list of elements.
+    Names are only modified when new_element has the same name as one of them, see make_unique_name_in_list.
+    """
+    if any(element.name == new_element.name for element in elements):
+        new_element.name = make_unique_name_in_list(elements, new_element.name)
+
+
 # Common structure elements
 
 
@@ -7071,7 +7080,7 @@ class RunnableEntity(ExecutableEntity):
         A server call result point allows a runnable to fetch the result of an asynchronous server call.
         """
         if isinstance(result_point, AsynchronousServerCallResultPoint):
-            make_unique_name_in_list(self.async_server_call_result_point, result_point.name)
+            make_element_unique_in_list(self.async_server_call_result_point, result_point)
             self.async_server_call_result_point.append(result_point)
             result_point.parent = self
         else:
@@ -7083,7 +7092,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit read access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_read_access, element.name)
+            make_element_unique_in_list(self.data_read_access, element)
             self.data_read_access.append(element)
             element.parent = self
         else:
@@ -7095,7 +7104,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of an argument in the function signature.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_argument, element.name)
+            make_element_unique_in_list(self.data_receive_point_by_argument, element)
             self.data_receive_point_by_argument.append(element)
             element.parent = self
         else:
@@ -7107,7 +7116,7 @@ class RunnableEntity(ExecutableEntity):
         The result is passed back to the application by means of the return value.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_receive_point_by_value, element.name)
+            make_element_unique_in_list(self.data_receive_point_by_value, element)
             self.data_receive_point_by_value.append(element)
             element.parent = self
         else:
@@ -7118,7 +7127,7 @@ class RunnableEntity(ExecutableEntity):
         Explicit write access to data element of a sender-receiver port or nv-data.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_send_point, element.name)
+            make_element_unique_in_list(self.data_send_point, element)
             self.data_send_point.append(element)
             element.parent = self
         else:
@@ -7129,7 +7138,7 @@ class RunnableEntity(ExecutableEntity):
         Implicit write access to data element of a sender-receiver port or nv-data port.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.data_write_access, element.name)
+            make_element_unique_in_list(self.data_write_access, element)
             self.data_write_access.append(element)
             element.parent = self
         else:
@@ -7151,7 +7160,7 @@ class RunnableEntity(ExecutableEntity):
         Internal triggering point
         """
         if isinstance(element, InternalTriggeringPoint):
-            make_unique_name_in_list(self.internal_triggering_point, element.name)
+            make_element_unique_in_list(self.internal_triggering_point, element)
             self.internal_triggering_point.append(element)
             element.parent = self
         else:
@@ -7173,7 +7182,7 @@ class RunnableEntity(ExecutableEntity):
         Mode switch point
         """
         if isinstance(element, ModeSwitchPoint):
-            make_unique_name_in_list(self.mode_switch_point, element.name)
+            make_element_unique_in_list(self.mode_switch_point, element)
             self.mode_switch_point.append(element)
             element.parent = self
         else:
@@ -7184,7 +7193,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to parameter which may either be local or within a PortPrototype.
         """
         if isinstance(element, ParameterAccess):
-            make_unique_name_in_list(self.parameter_access, element.name)
+            make_element_unique_in_list(self.parameter_access, element)
             self.parameter_access.append(element)
             element.parent = self
         else:
@@ -7195,7 +7204,7 @@ class RunnableEntity(ExecutableEntity):
         Read access to a local variable in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.read_local_variable, element.name)
+            make_element_unique_in_list(self.read_local_variable, element)
             self.read_local_variable.append(element)
             element.parent = self
         else:
@@ -7206,7 +7215,7 @@ class RunnableEntity(ExecutableEntity):
         Write access to a local varaible in the role of ImplicitInterRunnableVariable or ExplicitInterRunnableVariable.
         """
         if isinstance(element, VariableAccess):
-            make_unique_name_in_list(self.write_local_variable, element.name)
+            make_element_unique_in_list(self.write_local_variable, element)
             self.write_local_variable.append(element)
             element.parent = self
         else:
@@ -7217,7 +7226,7 @@ class RunnableEntity(ExecutableEntity):
         Access to call a server operation of a client-server port.
         """
         if isinstance(element, ServerCallPoint):
-            make_unique_name_in_list(self.server_call_point, element.name)
+            make_element_unique_in_list(self.server_call_point, element)
             self.server_call_point.append(element)
             element.parent = self
         else:
@@ -7229,7 +7238,7 @@ class RunnableEntity(ExecutableEntity):
         WaitPoint associated with the RunnableEntity
         """
         if isinstance(element, WaitPoint):
-            make_unique_name_in_list(self.wait_point, element.name)
+            make_element_unique_in_list(self.wait_point, element)
             self.wait_point.append(element)
             element.parent = self
         else:
-- 
2.43.0


From 181271fd742d7156d9f89eb353449077bed140be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 59/91] fix: the type emitter of type references was ignored by
 the implementation model

---
 src/autosar/model/element.py        | 5 +++--
 src/autosar/model/implementation.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/element.py b/src/autosar/model/element.py
index 8e28a46..af8b603 100644
--- a/src/autosar/model/element.py
+++ b/src/autosar/model/element.py
@@ -123,8 +123,9 @@ class RefType(ImplementationType):
                  name: str,
                  impl_type: ImplementationType,
                  symbol_name: str | None = None,
-                 const: bool = False) -> None:
-        super().__init__(xml_ref, name, symbol_name, const)
+                 const: bool = False,
+                 type_emitter: str | None = None) -> None:
+        super().__init__(xml_ref, name, symbol_name, const, type_emitter)
         self.impl_type = impl_type
 
 
diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 4852458..1cd0c2d 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -137,7 +137,7 @@ class ImplementationModel:
         symbol = None
         if element.symbol_props is not None:
             symbol = element.symbol_props.symbol
-        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol)
+        ref_type = rte_element.RefType(str(elem_ref), element.name, impl_type, symbol, type_emitter=element.type_emitter)
         self.data_types[str(elem_ref)] = ref_type
         return ref_type
 
-- 
2.43.0


From ac7f0898afbd2b9661c0788006fec3d0e20116ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 60/91] fix: array types with size handling, size semantics or
 implementation policy could not be created

---
 src/autosar/model/implementation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 1cd0c2d..45858d6 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -155,11 +155,11 @@ class ImplementationModel:
         else:
             raise NotImplementedError(last_element.category)
         if last_element.array_impl_policy is not None:
-            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy(last_element.array_impl_policy)
+            sub_element.impl_policy = rte_enumeration.ArrayImplPolicy[last_element.array_impl_policy.name]
         if last_element.array_size_handling is not None:
-            sub_element.size_handling = rte_enumeration.ArraySizeHandling(last_element.array_size_handling)
+            sub_element.size_handling = rte_enumeration.ArraySizeHandling[last_element.array_size_handling.name]
         if last_element.array_size_semantics is not None:
-            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics(last_element.array_size_semantics)
+            sub_element.size_semantics = rte_enumeration.ArraySizeSemantics[last_element.array_size_semantics.name]
         data_type.sub_elements.append(sub_element)
         for ar_sub_elem in reversed(element.sub_elements[:-1]):
             xml_ref = elem_ref + "/" + ar_sub_elem.name
-- 
2.43.0


From bc629038430a634985fe840563bad27b3f2e90a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 61/91] fix: types created as dependency first were never
 recorded as source, refused ones were

---
 src/autosar/model/implementation.py | 50 ++++++++++++++++-------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/autosar/model/implementation.py b/src/autosar/model/implementation.py
index 45858d6..5ed62f8 100644
--- a/src/autosar/model/implementation.py
+++ b/src/autosar/model/implementation.py
@@ -49,29 +49,35 @@ class ImplementationModel:
         """
         Creates new application element from xml-based element
         """
-        elem_ref = element.ref()
+        elem_ref = str(element.ref())
+        data_type = self.data_types.get(elem_ref)
+        if data_type is None:
+            data_type = self._create_data_type(element)
+        if is_source:
+            self.source_type_refs.add(elem_ref)
+        return data_type
 
-        if str(elem_ref) not in self.data_types:
-            if is_source:
-                self.source_type_refs.add(str(elem_ref))
-            if isinstance(element, ar_element.SwBaseType):
-                return self._create_base_type(element)
-            elif isinstance(element, ar_element.ImplementationDataType):
-                assert isinstance(element.category, str)
-                if element.category == "VALUE":
-                    return self._create_scalar_type_from_element(element)
-                if element.category == "TYPE_REFERENCE":
-                    return self._create_ref_type_from_element(element)
-                if element.category == "ARRAY":
-                    return self._create_array_type_from_element(element)
-                if element.category == "STRUCTURE":
-                    return self._create_struct_type_from_element(element)
-                if element.category == "DATA_REFERENCE":
-                    return self._create_ptr_type_from_element(element)
-                raise NotImplementedError("ImplementationDataType::" + str(element.category))
-            else:
-                raise NotImplementedError(str(type(element)))
-        return self.data_types[str(elem_ref)]
+    def _create_data_type(self, element: ar_element.ARElement) -> rte_element.DataType:
+        """
+        Creates a data type that isn't part of the model yet
+        """
+        if isinstance(element, ar_element.SwBaseType):
+            return self._create_base_type(element)
+        elif isinstance(element, ar_element.ImplementationDataType):
+            assert isinstance(element.category, str)
+            if element.category == "VALUE":
+                return self._create_scalar_type_from_element(element)
+            if element.category == "TYPE_REFERENCE":
+                return self._create_ref_type_from_element(element)
+            if element.category == "ARRAY":
+                return self._create_array_type_from_element(element)
+            if element.category == "STRUCTURE":
+                return self._create_struct_type_from_element(element)
+            if element.category == "DATA_REFERENCE":
+                return self._create_ptr_type_from_element(element)
+            raise NotImplementedError("ImplementationDataType::" + str(element.category))
+        else:
+            raise NotImplementedError(str(type(element)))
 
     def gen_type_dependency_trees(self) -> list[Node]:
         """
-- 
2.43.0


From 76a342274778463b1ee5d6ed21e22527d96211f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 62/91] fix: the type header enabled extern C for C instead of
 C++

---
 src/autosar/generator/type_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index 8ecb9d0..b8dcdd1 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -48,7 +48,7 @@ class TypeGenerator:
         code.append(C.ifndef(include_guard))
         code.append(C.define(include_guard))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line(C.extern("C")))
         code.append(C.line("{"))
         code.append(C.endif())
@@ -60,7 +60,7 @@ class TypeGenerator:
         code.append(C.blank())
         code.extend(self._gen_type_defs(self.gen_data_type_creation_order()))
         code.append(C.blank())
-        code.append(C.ifndef("__cplusplus"))
+        code.append(C.ifdef("__cplusplus"))
         code.append(C.line("}"))
         code.append([C.endif(), C.line_comment(" __cplusplus")])
         code.append([C.endif(), C.line_comment(" " + include_guard)])
-- 
2.43.0


From 734c0b5fd15dfbbacc707876cb00efbd749bc5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 63/91] fix: the type header ignored the symbols of data types

---
 src/autosar/generator/type_generator.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/autosar/generator/type_generator.py b/src/autosar/generator/type_generator.py
index b8dcdd1..2871d09 100644
--- a/src/autosar/generator/type_generator.py
+++ b/src/autosar/generator/type_generator.py
@@ -106,9 +106,9 @@ class TypeGenerator:
             if isinstance(data_type, rte_element.BaseType):
                 code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.native_declaration))))
             elif isinstance(data_type, rte_element.ScalarType):
-                code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.base_type.name))))
+                code.append(C.statement(C.declaration(C.typedef(data_type.symbol_name, data_type.base_type.name))))
             elif isinstance(data_type, rte_element.RefType):
-                code.append(C.statement(C.declaration(C.typedef(data_type.name, data_type.impl_type.name))))
+                code.append(C.statement(C.declaration(C.typedef(data_type.symbol_name, data_type.impl_type.symbol_name))))
             elif isinstance(data_type, rte_element.ArrayType):
                 code.append(self._gen_array_type_def(data_type))
             elif isinstance(data_type, rte_element.RecordType):
@@ -126,10 +126,10 @@ class TypeGenerator:
             else:
                 target_type = C.type(scalar_type.base_type.name)
         elif isinstance(last_element.data_type, rte_element.RefType):
-            target_type = C.type(last_element.data_type.impl_type.name)
+            target_type = C.type(last_element.data_type.impl_type.symbol_name)
         else:
             raise NotImplementedError(str(type(last_element.data_type)))
-        return C.statement(C.declaration(C.typedef(data_type.name, target_type, array=last_element.array_size)))
+        return C.statement(C.declaration(C.typedef(data_type.symbol_name, target_type, array=last_element.array_size)))
 
     def _gen_record_type_def(self, data_type: rte_element.RecordType) -> cfile.core.Statement:
         members = []
@@ -141,13 +141,13 @@ class TypeGenerator:
                 else:
                     target_type = C.type(scalar_type.base_type.name)
             elif isinstance(element.data_type, rte_element.RefType):
-                target_type = C.type(element.data_type.impl_type.name)
+                target_type = C.type(element.data_type.impl_type.symbol_name)
             else:
                 raise NotImplementedError(str(type(element.data_type)))
             members.append(C.struct_member(element.name, target_type))
-        struct_name = "Rte_struct_" + data_type.name
+        struct_name = "Rte_struct_" + data_type.symbol_name
         code = C.sequence()
         struct = C.struct(struct_name, members)
         code.append(C.statement(C.declaration(struct)))
-        code.append(C.statement(C.declaration(C.typedef(data_type.name, struct))))
+        code.append(C.statement(C.declaration(C.typedef(data_type.symbol_name, struct))))
         return code
-- 
2.43.0


From 3be732f0b6da7feab61937edb1f84a6b3f814133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 64/91] fix: lists of possible error references given as text
 were refused

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index b4d16cb..69cf970 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3718,6 +3718,8 @@ class ClientServerOperation(Identifiable):
                 self.append_possible_error_ref(ApplicationErrorRef(possible_error_refs))
             elif isinstance(possible_error_refs, list):
                 for possible_error_ref in possible_error_refs:
+                    if isinstance(possible_error_ref, str):
+                        possible_error_ref = ApplicationErrorRef(possible_error_ref)
                     self.append_possible_error_ref(possible_error_ref)
             else:
                 msg = f"possible_error_refs: Invalid type '{str(type(possible_error_refs))}'"
-- 
2.43.0


From d19ec95a12f35cc970d4aae861937fa66f201435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:28 +0000
Subject: [PATCH 65/91] fix: check_value failed when a limit is missing

---
 src/autosar/xml/element.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 69cf970..0d6cca8 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -1342,14 +1342,19 @@ class LimitObject(ARObject):
 
     def check_value(self, value: int | float) -> bool:
         """
-        Checks if given value is inside the constraint limits
+        Checks if given value is inside the constraint limits.
+        A missing limit doesn't restrict the value.
         """
-        if self.lower_limit_type == ar_enum.IntervalType.CLOSED:
+        if self.lower_limit is None:
+            pass
+        elif self.lower_limit_type == ar_enum.IntervalType.CLOSED:
             if value < self.lower_limit:
                 return False
         elif value <= self.lower_limit:
             return False
-        if self.upper_limit_type == ar_enum.IntervalType.CLOSED:
+        if self.upper_limit is None:
+            pass
+        elif self.upper_limit_type == ar_enum.IntervalType.CLOSED:
             if value > self.upper_limit:
                 return False
         elif value >= self.upper_limit:
-- 
2.43.0


From 498cbd94e9dda8c78ae6608dad2193223f9f723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 66/91] fix: mode switch events accepted tuples with more than
 two mode references

---
 src/autosar/xml/element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 0d6cca8..f370061 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -7702,6 +7702,8 @@ class SwcModeSwitchEvent(RteEvent):
             if isinstance(mode, RModeInAtomicSwcInstanceRef):
                 self.mode = mode
             elif isinstance(mode, tuple):
+                if len(mode) != 2:
+                    raise ValueError("Tuple of mode references must have exactly two values")
                 if (isinstance(mode[0], RModeInAtomicSwcInstanceRef) and  # noqa W504
                         isinstance(mode[1], RModeInAtomicSwcInstanceRef)):
                     self.mode = mode
-- 
2.43.0


From ad8cdb360e3df2deb582d81acb0459e82e9cd2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 67/91] fix: unsupported content of lists was skipped without
 report

---
 src/autosar/xml/reader.py | 154 +++++++++++++++++++++++++-------------
 1 file changed, 103 insertions(+), 51 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index ad27acf..809c8b8 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -403,6 +403,18 @@ class Reader:
         """
         return ElementTree.XMLParser(remove_comments=True, remove_pis=True)
 
+    def _find_children(self, xml_element: ElementTree.Element, tag: str) -> list[ElementTree.Element]:
+        """
+        Returns the child elements with given tag and reports about all others
+        """
+        children = []
+        for xml_child in xml_element.findall("./*"):
+            if xml_child.tag == tag:
+                children.append(xml_child)
+            else:
+                self._report_unprocessed_element(xml_child)
+        return children
+
     def _report_unprocessed_elements(self, xml_elements: ChildElementMap):
         """
         Reports about unprocessed child elements
@@ -624,6 +636,8 @@ class Reader:
         for xml_node in self.xml_root.findall('./AR-PACKAGES/*'):
             if xml_node.tag == 'AR-PACKAGE':
                 self._read_package_into(self.document, xml_node)
+            else:
+                self._report_unprocessed_element(xml_node)
 
     def _read_package(self, elem: ElementTree.Element) -> ar_element.Package:
         data = {}
@@ -684,7 +698,7 @@ class Reader:
         Reads AR:AR-PACKAGE.ELEMENTS
         Type: Utility
         """
-        for xml_child_package in xml_packages.findall('./AR-PACKAGE'):
+        for xml_child_package in self._find_children(xml_packages, 'AR-PACKAGE'):
             self._read_package_into(package, xml_child_package)
 
     def _read_package_into(self,
@@ -716,7 +730,7 @@ class Reader:
         Reads unbounded list of AR:ANNOTATION
         """
         elements = []
-        for xml_child in xml_elem.findall('./ANNOTATION'):
+        for xml_child in self._find_children(xml_elem, 'ANNOTATION'):
             elements.append(self._read_annotation(xml_child))
         return elements
 
@@ -844,6 +858,8 @@ class Reader:
         for xml_child_elem in xml_elem.findall('./*'):
             if xml_child_elem.tag == 'L-4':
                 elem.append(self._read_language_long_name(xml_child_elem))
+            else:
+                self._report_unprocessed_element(xml_child_elem)
         return elem
 
     def _read_language_long_name(self, xml_elem: ElementTree.Element) -> ar_element.LanguageLongName:
@@ -907,6 +923,8 @@ class Reader:
             if xml_child_elem.tag == 'L-2':
                 elem.append(
                     self._read_language_overview_paragraph(xml_child_elem))
+            else:
+                self._report_unprocessed_element(xml_child_elem)
         return elem
 
     def _read_language_overview_paragraph(self,
@@ -1055,6 +1073,8 @@ class Reader:
         for xml_child_elem in xml_elem.findall('./*'):
             if xml_child_elem.tag == 'L-1':
                 elem.append(self._read_language_paragraph(xml_child_elem))
+            else:
+                self._report_unprocessed_element(xml_child_elem)
         return elem
 
     def _read_document_view_selectable_attrib(self, attrib: dict, data: dict) -> None:
@@ -1099,6 +1119,8 @@ class Reader:
         for xml_child_elem in xml_elem.findall('./*'):
             if xml_child_elem.tag == 'L-5':
                 elem.append(self._read_language_verbatim(xml_child_elem))
+            else:
+                self._report_unprocessed_element(xml_child_elem)
         return elem
 
     def _read_multi_language_verbatim_attrib(self, attrib: dict, data: dict) -> None:
@@ -1221,7 +1243,7 @@ class Reader:
         Tag variants: 'COMPU-SCALES'
         """
         compu_scales = []
-        for xml_child in xml_element.findall("./COMPU-SCALE"):
+        for xml_child in self._find_children(xml_element, "COMPU-SCALE"):
             compu_scales.append(self._read_compu_scale(xml_child))
         return compu_scales
 
@@ -1287,8 +1309,9 @@ class Reader:
         Type: Concrete
         Tag variants: 'COMPU-CONST'
         """
-        v_xml = xml_element.find("V")
-        vt_xml = xml_element.find("VT")
+        child_elements = ChildElementMap(xml_element)
+        v_xml = child_elements.get("V")
+        vt_xml = child_elements.get("VT")
         if (v_xml is not None) and (vt_xml is not None):
             raise ar_exception.ParseError("Can't define both V and VT"
                                           "in the same COMPU-CONST element")
@@ -1298,6 +1321,7 @@ class Reader:
             value = vt_xml.text or ""
         else:
             raise ar_exception.ParseError("COMPU-CONST without value isn't supported")
+        self._report_unprocessed_elements(child_elements)
         return ar_element.CompuConst(value)
 
     def _read_compu_rational(self, xml_element: ElementTree.Element) -> ar_element.CompuRational:
@@ -1324,7 +1348,7 @@ class Reader:
         Tag variants: 'COMPU-NUMERATOR' | 'COMPU-DENOMINATOR'
         """
         values = []
-        for xml_child in xml_element.findall('./V'):
+        for xml_child in self._find_children(xml_element, 'V'):
             num_val = ar_element.NumericalValue(xml_child.text)
             values.append(num_val.value)
         return tuple(values)
@@ -1354,7 +1378,7 @@ class Reader:
         xml_child = child_elements.get("DATA-CONSTR-RULES")
         if xml_child is not None:
             rules = []
-            for xml_data_constr_rule in xml_child.findall("./DATA-CONSTR-RULE"):
+            for xml_data_constr_rule in self._find_children(xml_child, "DATA-CONSTR-RULE"):
                 rules.append(self._read_data_constraint_rule(xml_data_constr_rule))
             data["rules"] = rules
 
@@ -1440,7 +1464,7 @@ class Reader:
         Tag variant: Not applicable
         """
         scale_constrs = []
-        for xml_child in xml_element.findall('./SCALE-CONSTR'):
+        for xml_child in self._find_children(xml_element, 'SCALE-CONSTR'):
             props_conditional = self._read_scale_constraint(
                 xml_child)
             scale_constrs.append(props_conditional)
@@ -1579,7 +1603,7 @@ class Reader:
         xml_child = child_elements.get('ARTIFACT-DESCRIPTORS')
         if xml_child is not None:
             elements = []
-            for xml_grand_child in xml_child.findall("./AUTOSAR-ENGINEERING-OBJECT"):
+            for xml_grand_child in self._find_children(xml_child, "AUTOSAR-ENGINEERING-OBJECT"):
                 elements.append(self._read_autosar_engineering_object(xml_grand_child))
             data["artifact_descriptors"] = elements
         child_elements.skip('CALLBACK-HEADER-REFS')  # Not yet supported
@@ -1594,7 +1618,7 @@ class Reader:
         xml_child = child_elements.get("CODE-DESCRIPTORS")
         if xml_child is not None:
             elements = []
-            for xml_grand_child in xml_child.findall("./CODE"):
+            for xml_grand_child in self._find_children(xml_child, "CODE"):
                 elements.append(self._read_code(xml_grand_child))
             data["code_descriptors"] = elements
         child_elements.skip("COMPILERS")
@@ -1716,7 +1740,7 @@ class Reader:
         Type: Concrete
         """
         variants = []
-        for xml_child in xml_elem.findall('./SW-DATA-DEF-PROPS-CONDITIONAL'):
+        for xml_child in self._find_children(xml_elem, 'SW-DATA-DEF-PROPS-CONDITIONAL'):
             props_conditional = self._read_sw_data_def_props_conditional(
                 xml_child)
             variants.append(props_conditional)
@@ -1918,7 +1942,7 @@ class Reader:
         xml_child = child_elements.get("SUB-ELEMENTS")
         if xml_child is not None:
             sub_elements = []
-            for sub_element_xml in xml_child.findall("./IMPLEMENTATION-DATA-TYPE-ELEMENT"):
+            for sub_element_xml in self._find_children(xml_child, "IMPLEMENTATION-DATA-TYPE-ELEMENT"):
                 sub_elements.append(self._read_implementation_data_type_element(sub_element_xml))
             data["sub_elements"] = sub_elements
         xml_child = child_elements.get("SW-DATA-DEF-PROPS")
@@ -1956,7 +1980,7 @@ class Reader:
         xml_child = child_elements.get("SUB-ELEMENTS")
         if xml_child is not None:
             sub_elements = []
-            for sub_element_xml in xml_child.findall("./IMPLEMENTATION-DATA-TYPE-ELEMENT"):
+            for sub_element_xml in self._find_children(xml_child, "IMPLEMENTATION-DATA-TYPE-ELEMENT"):
                 sub_elements.append(self._read_implementation_data_type_element(sub_element_xml))
             data["sub_elements"] = sub_elements
         xml_child = child_elements.get("SYMBOL-PROPS")
@@ -2138,7 +2162,7 @@ class Reader:
         xml_child = child_elements.get("ELEMENTS")
         if xml_child is not None:
             elements = []
-            for xml_record_element in xml_child.findall("./APPLICATION-RECORD-ELEMENT"):
+            for xml_record_element in self._find_children(xml_child, "APPLICATION-RECORD-ELEMENT"):
                 elements.append(self._read_application_record_element(xml_record_element))
             data["elements"] = elements
 
@@ -2183,7 +2207,7 @@ class Reader:
         xml_child = child_elements.get("DATA-TYPE-MAPS")
         if xml_child is not None:
             data_type_maps = []
-            for xml_data_type_map_element in xml_child.findall("./DATA-TYPE-MAP"):
+            for xml_data_type_map_element in self._find_children(xml_child, "DATA-TYPE-MAP"):
                 data_type_maps.append(self._read_data_type_map(xml_data_type_map_element))
             data["data_type_maps"] = data_type_maps
 
@@ -2195,7 +2219,7 @@ class Reader:
         """
         values = []
         data = {"values": values}
-        for xml_value in xml_element.findall("./V"):
+        for xml_value in self._find_children(xml_element, "V"):
             number = ar_element.NumericalValue(xml_value.text)
             if number.value_format in (ar_enum.ValueFormat.HEXADECIMAL,
                                        ar_enum.ValueFormat.BINARY,
@@ -3020,7 +3044,7 @@ class Reader:
         xml_child = child_elements.get("SW-AXIS-CONTS")
         if xml_child is not None:
             elements = []
-            for xml_grand_child in xml_child.findall("./SW-AXIS-CONT"):
+            for xml_grand_child in self._find_children(xml_child, "SW-AXIS-CONT"):
                 elements.append(self._read_sw_axis_cont(xml_grand_child))
             data["sw_axis_conts"] = elements
         xml_child = child_elements.get("SW-VALUE-CONT")
@@ -3131,7 +3155,7 @@ class Reader:
             elif xml_child.tag in ("VTF", "VG"):
                 continue  # Not supported, skip
             else:
-                print(f"Unprocessed child element in VALUE-GROUP: <{xml_child.tag}>", file=sys.stderr)
+                self._report_unprocessed_element(xml_child)
 
     def _read_value_group(self, xml_element: ElementTree.Element) -> ar_element.ValueGroup:
         """
@@ -3303,6 +3327,8 @@ class Reader:
                 if xml_grand_child.tag == 'MODE-DECLARATION':
                     element = self._read_mode_declaration(xml_grand_child)
                     mode_declarations.append(element)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
         xml_child = child_elements.get("MODE-MANAGER-ERROR-BEHAVIOR")
         if xml_child is not None:
             data["mode_manager_error_behavior"] = self._read_mode_error_behavior(xml_child)
@@ -3314,6 +3340,8 @@ class Reader:
                 if xml_grand_child.tag == 'MODE-TRANSITION':
                     element = self._read_mode_transition(xml_grand_child)
                     mode_transitions.append(element)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
         xml_child = child_elements.get("MODE-USER-ERROR-BEHAVIOR")
         if xml_child is not None:
             data["mode_user_error_behavior"] = self._read_mode_error_behavior(xml_child)
@@ -3394,6 +3422,8 @@ class Reader:
                 if xml_grand_child.tag == 'VARIABLE-DATA-PROTOTYPE':
                     element = self._read_variable_data_prototype(xml_grand_child)
                     data_elements.append(element)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
 
     def _read_parameter_interface(self, xml_element: ElementTree.Element) -> ar_element.ParameterInterface:
         """
@@ -3423,6 +3453,8 @@ class Reader:
                 if xml_grand_child.tag == 'PARAMETER-DATA-PROTOTYPE':
                     element = self._read_parameter_data_prototype(xml_grand_child)
                     parameters.append(element)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
 
     def _read_sender_receiver_interface(self, xml_element: ElementTree.Element) -> ar_element.SenderReceiverInterface:
         """
@@ -3452,6 +3484,8 @@ class Reader:
                 if xml_grand_child.tag == 'VARIABLE-DATA-PROTOTYPE':
                     element = self._read_variable_data_prototype(xml_grand_child)
                     data_elements.append(element)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
         xml_child = child_elements.get('INVALIDATION-POLICYS')
         if xml_child is not None:
             policies = []
@@ -3460,6 +3494,8 @@ class Reader:
                 if xml_grand_child.tag == 'INVALIDATION-POLICY':
                     policy = self._read_invalidation_policy(xml_grand_child)
                     policies.append(policy)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
         child_elements.skip("META-DATA-ITEM-SETS")  # Not supported
 
     def _read_invalidation_policy(self, xml_element: ElementTree.Element) -> ar_element.InvalidationPolicy:
@@ -3526,6 +3562,8 @@ class Reader:
                 if xml_grand_child.tag == "ARGUMENT-DATA-PROTOTYPE":
                     element = self._read_argument_data_prototype(xml_grand_child)
                     arguments.append(element)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
         xml_child = child_elements.get("DIAG-ARG-INTEGRITY")
         if xml_child is not None:
             data["diag_arg_integrity"] = self._read_boolean(xml_child.text)
@@ -3542,6 +3580,8 @@ class Reader:
                 if xml_grand_child.tag == "POSSIBLE-ERROR-REF":
                     element = self._read_application_error_ref(xml_grand_child)
                     possible_error_refs.append(element)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
         child_elements.skip("VARIATION-POINT")  # not supported
 
     def _read_client_server_interface(self, xml_element: ElementTree.Element) -> ar_element.ClientServerInterface:
@@ -3571,6 +3611,8 @@ class Reader:
                 if xml_grand_child.tag == 'CLIENT-SERVER-OPERATION':
                     element = self._read_client_server_operation(xml_grand_child)
                     operations.append(element)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
         xml_child = child_elements.get('POSSIBLE-ERRORS')
         if xml_child is not None:
             possible_errors = []
@@ -3579,6 +3621,8 @@ class Reader:
                 if xml_grand_child.tag == 'APPLICATION-ERROR':
                     element = self._read_application_error(xml_grand_child)
                     possible_errors.append(element)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
 
     def _read_mode_switch_interface(self, xml_element: ElementTree.Element) -> ar_element.ModeSwitchInterface:
         """
@@ -3911,7 +3955,7 @@ class Reader:
         xml_child = child_elements.get("TRANSFORMATION-COM-SPEC-PROPSS")
         if xml_child is not None:
             com_spec_props = []
-            for xml_grand_child in xml_child.findall("./END-TO-END-TRANSFORMATION-COM-SPEC-PROPS"):
+            for xml_grand_child in self._find_children(xml_child, "END-TO-END-TRANSFORMATION-COM-SPEC-PROPS"):
                 com_spec_props.append(self._read_e2e_transformation_com_spec_props(xml_grand_child))
             data["transformation_com_spec_props"] = com_spec_props
 
@@ -3970,7 +4014,7 @@ class Reader:
         xml_child = child_elements.get("TRANSFORMATION-COM-SPEC-PROPSS")
         if xml_child is not None:
             com_spec_props = []
-            for xml_grand_child in xml_child.findall("./END-TO-END-TRANSFORMATION-COM-SPEC-PROPS"):
+            for xml_grand_child in self._find_children(xml_child, "END-TO-END-TRANSFORMATION-COM-SPEC-PROPS"):
                 com_spec_props.append(self._read_e2e_transformation_com_spec_props(xml_grand_child))
             data["transformation_com_spec_props"] = com_spec_props
         xml_child = child_elements.get("USES-END-TO-END-PROTECTION")
@@ -4125,7 +4169,7 @@ class Reader:
         xml_child = child_elements.get("TRANSFORMATION-COM-SPEC-PROPSS")
         if xml_child is not None:
             com_spec_props = []
-            for xml_grand_child in xml_child.findall("./END-TO-END-TRANSFORMATION-COM-SPEC-PROPS"):
+            for xml_grand_child in self._find_children(xml_child, "END-TO-END-TRANSFORMATION-COM-SPEC-PROPS"):
                 com_spec_props.append(self._read_e2e_transformation_com_spec_props(xml_grand_child))
             data["transformation_com_spec_props"] = com_spec_props
 
@@ -4266,6 +4310,8 @@ class Reader:
                     ports.append(self._read_require_port_prototype(xml_grand_child))
                 elif xml_grand_child.tag == "PR-PORT-PROTOTYPE":
                     ports.append(self._read_pr_port_prototype(xml_grand_child))
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
             data["ports"] = ports
         child_elements.skip("PORT_GROUPS")
         child_elements.skip("SWC-MAPPING-CONSTRAINT-REFS")
@@ -4440,7 +4486,7 @@ class Reader:
         xml_child = child_elements.get("COMPONENTS")
         if xml_child is not None:
             component_list = []
-            for xml_grand_child in xml_child.findall("./SW-COMPONENT-PROTOTYPE"):
+            for xml_grand_child in self._find_children(xml_child, "SW-COMPONENT-PROTOTYPE"):
                 component_list.append(self._read_sw_component_prototype(xml_grand_child))
             data["components"] = component_list
         xml_child = child_elements.get("CONNECTORS")
@@ -4453,6 +4499,8 @@ class Reader:
                     connector_list.append(self._read_delegation_sw_connector(xml_grand_child))
                 elif xml_grand_child.tag == "PASS-THROUGH-SW-CONNECTOR":
                     connector_list.append(self._read_pass_through_sw_connector(xml_grand_child))
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
             data["connectors"] = connector_list
         child_elements.skip("CONSTANT-VALUE-MAPPING-REFS")
         child_elements.skip("DATA-TYPE-MAPPING-REFS")
@@ -4667,7 +4715,7 @@ class Reader:
         xml_child = child_elements.get("CONTEXT-DATA-PROTOTYPE-REFS")
         if xml_child is not None:
             data_prototype_refs = []
-            for xml_grand_child in xml_child.findall("./CONTEXT-DATA-PROTOTYPE-REF"):
+            for xml_grand_child in self._find_children(xml_child, "CONTEXT-DATA-PROTOTYPE-REF"):
                 data_prototype_refs.append(self._read_abstract_impl_data_type_element_ref(xml_grand_child))
             data["context_data_prototype_refs"] = data_prototype_refs
         xml_child = child_elements.get("TARGET-DATA-PROTOTYPE-REF")
@@ -5088,7 +5136,7 @@ class Reader:
         xml_child = child_elements.get("ACTIVATION-REASONS")
         if xml_child is not None:
             activation_reasons = []
-            for xml_grand_child in xml_child.findall("./EXECUTABLE-ENTITY-ACTIVATION-REASON"):
+            for xml_grand_child in self._find_children(xml_child, "EXECUTABLE-ENTITY-ACTIVATION-REASON"):
                 activation_reasons.append(self._read_executable_entity_activation_reason(xml_grand_child))
             data["activation_reasons"] = activation_reasons
         if not isinstance(self.schema_version, int):
@@ -5097,7 +5145,7 @@ class Reader:
             xml_child = child_elements.get("CAN-ENTER-EXCLUSIVE-AREA-REFS")
             if xml_child is not None:
                 can_enter_leave = []
-                for xml_grand_child in xml_child.findall("./CAN-ENTER-EXCLUSIVE-AREA-REF"):
+                for xml_grand_child in self._find_children(xml_child, "CAN-ENTER-EXCLUSIVE-AREA-REF"):
                     # The class constructor will automatically upgrade these references to
                     # ExclusiveAreaRefConditional elements.
                     can_enter_leave.append(self._read_exclusive_area_ref(xml_grand_child))
@@ -5106,13 +5154,13 @@ class Reader:
             xml_child = child_elements.get("CAN-ENTERS")
             if xml_child is not None:
                 can_enter_leave = []
-                for xml_grand_child in xml_child.findall("./EXCLUSIVE-AREA-REF-CONDITIONAL"):
+                for xml_grand_child in self._find_children(xml_child, "EXCLUSIVE-AREA-REF-CONDITIONAL"):
                     can_enter_leave.append(self._read_exclusive_area_ref_conditional(xml_grand_child))
                 data["can_enter_leave"] = can_enter_leave
         xml_child = child_elements.get("EXCLUSIVE-AREA-NESTING-ORDER-REFS")
         if xml_child is not None:
             exclusive_area_nesting_order = []
-            for xml_grand_child in xml_child.findall("./EXCLUSIVE-AREA-NESTING-ORDER-REF"):
+            for xml_grand_child in self._find_children(xml_child, "EXCLUSIVE-AREA-NESTING-ORDER-REF"):
                 exclusive_area_nesting_order.append(self._read_exclusive_area_nesting_order_ref(xml_grand_child))
             data["exclusive_area_nesting_order"] = exclusive_area_nesting_order
         xml_child = child_elements.get("MINIMUM-START-INTERVAL")
@@ -5125,7 +5173,7 @@ class Reader:
             xml_child = child_elements.get("RUNS-INSIDE-EXCLUSIVE-AREA-REFS")
             if xml_child is not None:
                 runs_insides = []
-                for xml_grand_child in xml_child.findall("./RUNS-INSIDE-EXCLUSIVE-AREA-REF"):
+                for xml_grand_child in self._find_children(xml_child, "RUNS-INSIDE-EXCLUSIVE-AREA-REF"):
                     # The class constructor will automatically upgrade these references to
                     # ExclusiveAreaRefConditional elements.
                     runs_insides.append(self._read_exclusive_area_ref(xml_grand_child))
@@ -5134,7 +5182,7 @@ class Reader:
             xml_child = child_elements.get("RUNS-INSIDES")
             if xml_child is not None:
                 runs_insides = []
-                for xml_grand_child in xml_child.findall("./EXCLUSIVE-AREA-REF-CONDITIONAL"):
+                for xml_grand_child in self._find_children(xml_child, "EXCLUSIVE-AREA-REF-CONDITIONAL"):
                     runs_insides.append(self._read_exclusive_area_ref_conditional(xml_grand_child))
                 data["runs_insides"] = runs_insides
         xml_child = child_elements.get('SW-ADDR-METHOD-REF')
@@ -5163,13 +5211,13 @@ class Reader:
         xml_child = child_elements.get("ARGUMENTS")
         if xml_child is not None:
             arguments = []
-            for xml_grand_child in xml_child.findall("./RUNNABLE-ENTITY-ARGUMENT"):
+            for xml_grand_child in self._find_children(xml_child, "RUNNABLE-ENTITY-ARGUMENT"):
                 arguments.append(self._read_runnable_entity_argument(xml_grand_child))
             data["argument"] = arguments
         xml_child = child_elements.get("ASYNCHRONOUS-SERVER-CALL-RESULT-POINTS")
         if xml_child is not None:
             async_server_call_result_points = []
-            for xml_grand_child in xml_child.findall("./ASYNCHRONOUS-SERVER-CALL-RESULT-POINT"):
+            for xml_grand_child in self._find_children(xml_child, "ASYNCHRONOUS-SERVER-CALL-RESULT-POINT"):
                 async_server_call_result_points.append(self._read_async_server_call_result_point(xml_grand_child))
             data["async_server_call_result_point"] = async_server_call_result_points
         xml_child = child_elements.get('CAN-BE-INVOKED-CONCURRENTLY')
@@ -5178,67 +5226,67 @@ class Reader:
         xml_child = child_elements.get("DATA-READ-ACCESSS")
         if xml_child is not None:
             data_read_access = []
-            for xml_grand_child in xml_child.findall("./VARIABLE-ACCESS"):
+            for xml_grand_child in self._find_children(xml_child, "VARIABLE-ACCESS"):
                 data_read_access.append(self._read_variable_access(xml_grand_child))
             data["data_read_access"] = data_read_access
         xml_child = child_elements.get("DATA-RECEIVE-POINT-BY-ARGUMENTS")
         if xml_child is not None:
             data_receive_point_by_argument = []
-            for xml_grand_child in xml_child.findall("./VARIABLE-ACCESS"):
+            for xml_grand_child in self._find_children(xml_child, "VARIABLE-ACCESS"):
                 data_receive_point_by_argument.append(self._read_variable_access(xml_grand_child))
             data["data_receive_point_by_argument"] = data_receive_point_by_argument
         xml_child = child_elements.get("DATA-RECEIVE-POINT-BY-VALUES")
         if xml_child is not None:
             data_receive_point_by_value = []
-            for xml_grand_child in xml_child.findall("./VARIABLE-ACCESS"):
+            for xml_grand_child in self._find_children(xml_child, "VARIABLE-ACCESS"):
                 data_receive_point_by_value.append(self._read_variable_access(xml_grand_child))
             data["data_receive_point_by_value"] = data_receive_point_by_value
         xml_child = child_elements.get("DATA-SEND-POINTS")
         if xml_child is not None:
             data_send_points = []
-            for xml_grand_child in xml_child.findall("./VARIABLE-ACCESS"):
+            for xml_grand_child in self._find_children(xml_child, "VARIABLE-ACCESS"):
                 data_send_points.append(self._read_variable_access(xml_grand_child))
             data["data_send_point"] = data_send_points
         xml_child = child_elements.get("DATA-WRITE-ACCESSS")
         if xml_child is not None:
             data_write_access = []
-            for xml_grand_child in xml_child.findall("./VARIABLE-ACCESS"):
+            for xml_grand_child in self._find_children(xml_child, "VARIABLE-ACCESS"):
                 data_write_access.append(self._read_variable_access(xml_grand_child))
             data["data_write_access"] = data_write_access
         xml_child = child_elements.get("EXTERNAL-TRIGGERING-POINTS")
         if xml_child is not None:
             external_triggering_point = []
-            for xml_grand_child in xml_child.findall("./EXTERNAL-TRIGGERING-POINT"):
+            for xml_grand_child in self._find_children(xml_child, "EXTERNAL-TRIGGERING-POINT"):
                 external_triggering_point.append(self._read_external_triggering_point(xml_grand_child))
             data["external_triggering_point"] = external_triggering_point
         xml_child = child_elements.get("INTERNAL-TRIGGERING-POINTS")
         if xml_child is not None:
             internal_triggering_point = []
-            for xml_grand_child in xml_child.findall("./INTERNAL-TRIGGERING-POINT"):
+            for xml_grand_child in self._find_children(xml_child, "INTERNAL-TRIGGERING-POINT"):
                 internal_triggering_point.append(self._read_internal_triggering_point(xml_grand_child))
             data["internal_triggering_point"] = internal_triggering_point
         xml_child = child_elements.get("MODE-ACCESS-POINTS")
         if xml_child is not None:
             mode_access_point = []
-            for xml_grand_child in xml_child.findall("./MODE-ACCESS-POINT"):
+            for xml_grand_child in self._find_children(xml_child, "MODE-ACCESS-POINT"):
                 mode_access_point.append(self._read_mode_access_point(xml_grand_child))
             data["mode_access_point"] = mode_access_point
         xml_child = child_elements.get("MODE-SWITCH-POINTS")
         if xml_child is not None:
             mode_switch_point = []
-            for xml_grand_child in xml_child.findall("./MODE-SWITCH-POINT"):
+            for xml_grand_child in self._find_children(xml_child, "MODE-SWITCH-POINT"):
                 mode_switch_point.append(self._read_mode_switch_point(xml_grand_child))
             data["mode_switch_point"] = mode_switch_point
         xml_child = child_elements.get("PARAMETER-ACCESSS")
         if xml_child is not None:
             parameter_access = []
-            for xml_grand_child in xml_child.findall("./PARAMETER-ACCESS"):
+            for xml_grand_child in self._find_children(xml_child, "PARAMETER-ACCESS"):
                 parameter_access.append(self._read_parameter_access(xml_grand_child))
             data["parameter_access"] = parameter_access
         xml_child = child_elements.get("READ-LOCAL-VARIABLES")
         if xml_child is not None:
             read_local_variable = []
-            for xml_grand_child in xml_child.findall("./VARIABLE-ACCESS"):
+            for xml_grand_child in self._find_children(xml_child, "VARIABLE-ACCESS"):
                 read_local_variable.append(self._read_variable_access(xml_grand_child))
             data["read_local_variable"] = read_local_variable
         xml_child = child_elements.get("SERVER-CALL-POINTS")
@@ -5249,6 +5297,8 @@ class Reader:
                     server_call_points.append(self._read_async_server_call_point(xml_grand_child))
                 elif xml_grand_child.tag == "SYNCHRONOUS-SERVER-CALL-POINT":
                     server_call_points.append(self._read_sync_server_call_point(xml_grand_child))
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
             data["server_call_point"] = server_call_points
         xml_child = child_elements.get("SYMBOL")
         if xml_child is not None:
@@ -5256,13 +5306,13 @@ class Reader:
         xml_child = child_elements.get("WAIT-POINTS")
         if xml_child is not None:
             wait_points = []
-            for xml_grand_child in xml_child.findall("./WAIT-POINT"):
+            for xml_grand_child in self._find_children(xml_child, "WAIT-POINT"):
                 wait_points.append(self._read_wait_point(xml_grand_child))
             data["wait_point"] = wait_points
         xml_child = child_elements.get("WRITTEN-LOCAL-VARIABLES")
         if xml_child is not None:
             write_local_variables = []
-            for xml_grand_child in xml_child.findall("./VARIABLE-ACCESS"):
+            for xml_grand_child in self._find_children(xml_child, "VARIABLE-ACCESS"):
                 write_local_variables.append(self._read_variable_access(xml_grand_child))
             data["write_local_variable"] = write_local_variables
         child_elements.skip("VARIATION-POINT")
@@ -5274,7 +5324,7 @@ class Reader:
         xml_child = child_elements.get("DISABLED-MODE-IREFS")
         if xml_child is not None:
             disabled_modes = []
-            for xml_grand_child in xml_child.findall("./DISABLED-MODE-IREF"):
+            for xml_grand_child in self._find_children(xml_child, "DISABLED-MODE-IREF"):
                 disabled_modes.append(self._read_r_mode_in_atomic_swc_instance_ref(xml_grand_child))
             data["disabled_modes"] = disabled_modes
         xml_child = child_elements.get("START-ON-EVENT-REF")
@@ -5531,7 +5581,7 @@ class Reader:
         xml_child = child_elements.get("MODE-IREFS")
         if xml_child is not None:
             modes = []
-            for xml_grand_child in xml_child.findall("./MODE-IREF"):
+            for xml_grand_child in self._find_children(xml_child, "MODE-IREF"):
                 modes.append(self._read_r_mode_in_atomic_swc_instance_ref(xml_grand_child))
             if len(modes) == 0:
                 pass
@@ -5659,7 +5709,7 @@ class Reader:
         xml_child = child_elements.get("PORT-ARG-VALUES")
         if xml_child is not None:
             port_arg_values = []
-            for xml_grand_child in xml_child.findall("./PORT-DEFINED-ARGUMENT-VALUE"):
+            for xml_grand_child in self._find_children(xml_child, "PORT-DEFINED-ARGUMENT-VALUE"):
                 port_arg_values.append(self._read_port_defined_argument_value(xml_grand_child))
             data["port_arg_values"] = port_arg_values
         xml_child = child_elements.get("PORT-REF")
@@ -5674,6 +5724,8 @@ class Reader:
             for xml_grand_child in xml_child.findall("./*"):
                 if xml_grand_child.tag == "COMMUNICATION-BUFFER-LOCKING":
                     supported_features.append(self._read_communication_buffer_locking(xml_grand_child))
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
             data["supported_features"] = supported_features
         xml_child = child_elements.get("TRANSFORMER-STATUS-FORWARDING")
         if xml_child is not None:
@@ -5717,13 +5769,13 @@ class Reader:
         xml_child = child_elements.get("DATA-TYPE-MAPPING-REFS")
         if xml_child is not None:
             data_type_mappings = []
-            for xml_grand_child in xml_child.findall("./DATA-TYPE-MAPPING-REF"):
+            for xml_grand_child in self._find_children(xml_child, "DATA-TYPE-MAPPING-REF"):
                 data_type_mappings.append(self._read_data_type_mapping_set_ref(xml_grand_child))
             data["data_type_mappings"] = data_type_mappings
         xml_child = child_elements.get("EXCLUSIVE-AREAS")
         if xml_child is not None:
             exclusive_areas = []
-            for xml_grand_child in xml_child.findall("./EXCLUSIVE-AREA"):
+            for xml_grand_child in self._find_children(xml_child, "EXCLUSIVE-AREA"):
                 exclusive_areas.append(self._read_exclusive_area(xml_grand_child))
             data["exclusive_areas"] = exclusive_areas
 
@@ -5756,13 +5808,13 @@ class Reader:
         xml_child = child_elements.get("PORT-API-OPTIONS")
         if xml_child is not None:
             port_api_options = []
-            for xml_grand_child in xml_child.findall("./PORT-API-OPTION"):
+            for xml_grand_child in self._find_children(xml_child, "PORT-API-OPTION"):
                 port_api_options.append(self._read_port_api_option(xml_grand_child))
             data["port_api_options"] = port_api_options
         xml_child = child_elements.get("RUNNABLES")
         if xml_child is not None:
             runnables = []
-            for xml_grand_child in xml_child.findall("./RUNNABLE-ENTITY"):
+            for xml_grand_child in self._find_children(xml_child, "RUNNABLE-ENTITY"):
                 runnables.append(self._read_runnable_entity(xml_grand_child))
             data["runnables"] = runnables
         child_elements.skip("SERVICE-DEPENDENCYS")
-- 
2.43.0


From 5a4a01df736c2611ec3f67c6eabbc154ccb81b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 68/91] fix: a document that names a package after one of its
 own sub-packages could not be written

---
 src/autosar/xml/workspace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 56f62ec..0ad4780 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -231,13 +231,14 @@ class Workspace(ar_element.PackageCollection):
         document_config.document = document
         file_path = document_config.file_path
         package_refs = document_config.package_refs
-        for package_ref in package_refs:
+        full_paths = ["/" + package_ref.strip("/") for package_ref in package_refs]
+        for package_ref, full_path in zip(package_refs, full_paths):
             package = self.find(package_ref)
             if package is not None:
                 if not isinstance(package, ar_element.Package):
                     raise ValueError(f"'{package_ref}' does not reference a package element")
-                if document.find(str(package.ref())) is package:
-                    continue  # Already there, as part of another package
+                if document.find(full_path) is package or any(full_path.startswith(x + "/") for x in full_paths):
+                    continue  # It is there, or will be there, as part of another package
                 parent = package.parent
                 parent_ref = str(package.ref()).rpartition("/")[0]
                 # Sub-packages are placed below (otherwise empty) packages with the names of their parents
-- 
2.43.0


From 2079db615f12fb5ec2601a7a9e8f53cebed90a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 69/91] fix: the encoding of the XML declaration was applied to
 text that is decoded already (read_str)

---
 src/autosar/xml/reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 809c8b8..62b8e7d 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -369,7 +369,8 @@ class Reader:
         """
         self.observed_unsupported_elements = set()
         self.document = None
-        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser())
+        # The text is decoded already: an encoding in its XML declaration doesn't apply
+        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"), self._create_parser("utf-8"))
         self.file_path = ""
         self.file_base_name = ""
         self.stop_on_error = stop_on_error
@@ -397,11 +398,11 @@ class Reader:
 
     # --- Utility methods
 
-    def _create_parser(self) -> ElementTree.XMLParser:
+    def _create_parser(self, encoding: str | None = None) -> ElementTree.XMLParser:
         """
         Comments and processing instructions are not part of the content of an element
         """
-        return ElementTree.XMLParser(remove_comments=True, remove_pis=True)
+        return ElementTree.XMLParser(encoding=encoding, remove_comments=True, remove_pis=True)
 
     def _find_children(self, xml_element: ElementTree.Element, tag: str) -> list[ElementTree.Element]:
         """
-- 
2.43.0


From 640836b0470440c85204031e2f8684351612e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 70/91] fix: refuse references with more than two names when
 events are created

---
 src/autosar/xml/element.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index f370061..eadc72e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8258,8 +8258,10 @@ class SwcInternalBehavior(InternalBehavior):
         name_parts = split_ref_strict(port_data_element)
         if len(name_parts) == 1:
             port_name, data_element_name = name_parts[0], None
-        else:
+        elif len(name_parts) == 2:
             port_name, data_element_name = name_parts[0], name_parts[1]
+        else:
+            raise ValueError(f"port_data_element: '{port_data_element}': Formatting error, expected <PortName>/<DataElementName>")
         context_port = swc.find_r_port(port_name)
         if context_port is None:
             raise ValueError(f"port_data_element: '{port_data_element}' does not name an existing R-PORT or PR-PORT")
@@ -8309,8 +8311,10 @@ class SwcInternalBehavior(InternalBehavior):
         name_parts = split_ref_strict(data_element_ref)
         if len(name_parts) == 1:
             port_name, data_element_name = name_parts[0], None
-        else:
+        elif len(name_parts) == 2:
             port_name, data_element_name = name_parts[0], name_parts[1]
+        else:
+            raise ValueError(f"data_element_ref: '{data_element_ref}': Formatting error, expected <PortName>/<DataElementName>")
         context_port = swc.find_r_port(port_name)
         if context_port is None:
             raise ValueError(f"data_element_ref: '{data_element_ref}' does not name an existing R-PORT or PR-PORT")
@@ -8421,8 +8425,10 @@ class SwcInternalBehavior(InternalBehavior):
         name_parts = split_ref_strict(operation_ref)
         if len(name_parts) == 1:
             port_name, operation_name = name_parts[0], None
-        else:
+        elif len(name_parts) == 2:
             port_name, operation_name = name_parts[0], name_parts[1]
+        else:
+            raise ValueError(f"operation_ref: '{operation_ref}': Formatting error, expected <PortName>/<OperationName>")
         context_port = swc.find_p_port(port_name)
         if context_port is None:
             raise ValueError(f"port_name: '{port_name}' does not name an existing P-PORT or PR-PORT")
-- 
2.43.0


From a4b7ec28637042caedee2684b5d26a06b0e09fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 71/91] fix: create_port_access added access points before it
 refused a later one

---
 src/autosar/xml/element.py | 56 ++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index eadc72e..991bcfc 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3,7 +3,7 @@ Classes related to AUTOSAR XML Elements
 """
 
 import re
-from collections.abc import Iterable, Iterator
+from collections.abc import Callable, Iterable, Iterator
 from dataclasses import dataclass
 from typing import Any, Union
 from collections import OrderedDict
@@ -6772,6 +6772,7 @@ class RunnableEntity(ExecutableEntity):
         settings = workspace.get_valid_behavior_settings()
         if isinstance(elements, (str, tuple)):
             elements = [elements]
+        access_points: list[tuple[Callable, Any]] = []  # Nothing is appended until all of them are created
         for elem in elements:
             if isinstance(elem, tuple):
                 text, access_point_args = elem
@@ -6795,7 +6796,10 @@ class RunnableEntity(ExecutableEntity):
                 raise ValueError(f"Invalid port name: {port_name}")
             port_interface = workspace.get_port_interface(port.port_interface_ref)
             self._check_port_access_prefix(port, port_interface, prefix)
-            self._create_port_access_internal(port, port_interface, ref[2], settings, options, access_point_args)
+            access_points.append(
+                self._create_port_access_internal(port, port_interface, ref[2], settings, options, access_point_args))
+        for append_method, access_point in access_points:
+            append_method(access_point)
 
     def _parse_port_access_prefix(self, text: str, options: PortAccessOptions) -> None:
         """
@@ -6856,21 +6860,22 @@ class RunnableEntity(ExecutableEntity):
                                      element_name: str,
                                      settings: BehaviorSettings,
                                      options: PortAccessOptions,
-                                     access_point_args: dict[str, Any] | None) -> None:
+                                     access_point_args: dict[str, Any] | None) -> tuple[Callable, Any]:
         """
-        Helper function for creating port access
+        Helper function for creating port access.
+        Returns the new access point, preceded by the method that appends it.
         """
         if isinstance(port_interface, (SenderReceiverInterface, NvDataInterface)):
-            self._create_data_based_port_access(port, port_interface, element_name,
-                                                settings, options.access, options.result, access_point_args)
+            return self._create_data_based_port_access(port, port_interface, element_name,
+                                                       settings, options.access, options.result, access_point_args)
         elif isinstance(port_interface, ModeSwitchInterface):
-            self._create_mode_based_port_access(port, port_interface, element_name,
-                                                settings, options.mode, access_point_args)
+            return self._create_mode_based_port_access(port, port_interface, element_name,
+                                                       settings, options.mode, access_point_args)
         elif isinstance(port_interface, ParameterInterface):
-            self._create_parameter_port_access(port, port_interface, element_name, settings, access_point_args)
+            return self._create_parameter_port_access(port, port_interface, element_name, settings, access_point_args)
         elif isinstance(port_interface, ClientServerInterface):
-            self._create_client_server_port_access(port, port_interface, element_name,
-                                                   settings, options.call, access_point_args)
+            return self._create_client_server_port_access(port, port_interface, element_name,
+                                                          settings, options.call, access_point_args)
         else:
             raise NotImplementedError(str(type(port_interface)))
 
@@ -6881,7 +6886,7 @@ class RunnableEntity(ExecutableEntity):
                                        settings: BehaviorSettings,
                                        access_type: ar_enum.PortAccess,
                                        result_type: ar_enum.ReadResult,
-                                       access_point_args: dict[str, Any] | None) -> None:
+                                       access_point_args: dict[str, Any] | None) -> tuple[Callable, Any]:
         """
         Automatically create port access for SenderReceiverInterface or NvDataInterface
         """
@@ -6906,29 +6911,29 @@ class RunnableEntity(ExecutableEntity):
                     name = "_".join([settings.get_value("data_read_access_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
-                self.append_data_read_access(variable_access)
+                return self.append_data_read_access, variable_access
             else:
                 if name is None:
                     name = "_".join([settings.get_value("data_receive_point_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
                 if result_type == ar_enum.ReadResult.BY_VALUE:
-                    self.append_data_receive_point_by_value(variable_access)
+                    return self.append_data_receive_point_by_value, variable_access
                 else:
-                    self.append_data_receive_point_by_argument(variable_access)
+                    return self.append_data_receive_point_by_argument, variable_access
         elif isinstance(port, ProvidePortPrototype):
             if access_type == ar_enum.PortAccess.IMPLICIT:
                 if name is None:
                     name = "_".join([settings.get_value("data_write_access_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
-                self.append_data_write_access(variable_access)
+                return self.append_data_write_access, variable_access
             else:
                 if name is None:
                     name = "_".join([settings.get_value("data_send_point_prefix"), port.name, data_element.name])
                 variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                           access_point_args)
-                self.append_data_send_point(variable_access)
+                return self.append_data_send_point, variable_access
         else:
             raise TypeError(f"Type not supported: {str(type(port))}")
 
@@ -6938,7 +6943,7 @@ class RunnableEntity(ExecutableEntity):
                                        mode_group_name: str,
                                        settings: BehaviorSettings,
                                        access_type: ar_enum.ModeAccess | None,
-                                       access_point_args: dict[str, Any] | None) -> None:
+                                       access_point_args: dict[str, Any] | None) -> tuple[Callable, Any]:
         """
         Creates port access for mode-based interfaces.
 
@@ -6985,16 +6990,15 @@ class RunnableEntity(ExecutableEntity):
                     switch_point = ModeSwitchPoint(name, mode_group_iref, **access_point_args)
                 else:
                     switch_point = ModeSwitchPoint(name, mode_group_iref)
-                self.append_mode_switch_point(switch_point)
-        if access_point:
-            self.append_mode_access_point(access_point)
+                return self.append_mode_switch_point, switch_point
+        return self.append_mode_access_point, access_point
 
     def _create_parameter_port_access(self,
                                       port: PortPrototypeElement,
                                       port_interface: ParameterInterface,
                                       parameter_name: str,
                                       settings: BehaviorSettings,
-                                      access_point_args: dict[str, Any] | None) -> None:
+                                      access_point_args: dict[str, Any] | None) -> tuple[Callable, Any]:
         """
         Creates port access for parameter interface
         """
@@ -7025,7 +7029,7 @@ class RunnableEntity(ExecutableEntity):
                                                **access_point_args)
         else:
             parameter_access = ParameterAccess(name, AutosarParameterRef(autosar_parameter=parameter_iref))
-        self.append_parameter_access(parameter_access)
+        return self.append_parameter_access, parameter_access
 
     def _create_client_server_port_access(self,
                                           port: PortPrototypeElement,
@@ -7033,7 +7037,7 @@ class RunnableEntity(ExecutableEntity):
                                           operation_name: str,
                                           settings: BehaviorSettings,
                                           call_type: ar_enum.CallPoint,
-                                          access_point_args: dict[str, Any] | None) -> None:
+                                          access_point_args: dict[str, Any] | None) -> tuple[Callable, Any]:
         """
         Creates port access for client-server interfaces
         """
@@ -7068,8 +7072,8 @@ class RunnableEntity(ExecutableEntity):
                     access_point = AsynchronousServerCallPoint(name, operation_iref)
                 else:
                     access_point = SynchronousServerCallPoint(name, operation=operation_iref)
-            if access_point:
-                self.append_server_call_point(access_point)
+            return self.append_server_call_point, access_point
+        raise TypeError(f"Type not supported: {str(type(port))}")
 
     def append_argument(self, argument: RunnableEntityArgument) -> None:
         """
-- 
2.43.0


From d9e7f2627baec9e2eaeec06230a409e8b947efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 72/91] fix: behavior settings accepted the names of their own
 methods as names of settings

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 991bcfc..57ed306 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -3050,7 +3050,7 @@ class BehaviorSettings:
         """
         Updates a single value with error check
         """
-        if hasattr(self, name):
+        if name in vars(self):
             if not isinstance(value, str):
                 raise TypeError(f"value: Expected string type. Got {str(type(value))}")
             setattr(self, name, value)
-- 
2.43.0


From 5aa350bd4eae324ccfb4e12f5f3ebc4380862c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 73/91] fix: numerical values in octal notation were read as
 decimal

---
 src/autosar/xml/element.py |  2 +-
 src/autosar/xml/reader.py  | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 57ed306..e160ee9 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -131,7 +131,7 @@ class NumericalValue:
             return value
         elif isinstance(value, str):
             try:
-                return int(value, 0)
+                return int(value, 8) if re.fullmatch(r"[+-]?0[0-7]+", value) else int(value, 0)
             except ValueError:
                 return float(value)
         else:
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 62b8e7d..cb21492 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -483,6 +483,12 @@ class Reader:
                 continue
         raise ar_exception.ParseError(f"Not a number: {text}")
 
+    def _read_numerical_value(self, text: str) -> int | float:
+        """
+        Reads AR:NUMERICAL-VALUE, a number that can also be in octal notation
+        """
+        return int(text, 8) if re.fullmatch(r"[+-]?0[0-7]+", text or "") else self._read_number(text)
+
     def _read_integer(self, text: str) -> int:
         """
         Reads AR:INTEGER
@@ -1301,7 +1307,7 @@ class Reader:
         else:
             # If the attribute is missing the interval shall be considered as "CLOSED"
             interval_type = ar_enum.IntervalType.CLOSED
-        limit = self._read_number(xml_element.text)
+        limit = self._read_numerical_value(xml_element.text)
         return limit, interval_type
 
     def _read_compu_const(self, xml_element: ElementTree.Element) -> ar_element.CompuConst:
@@ -1317,7 +1323,7 @@ class Reader:
             raise ar_exception.ParseError("Can't define both V and VT"
                                           "in the same COMPU-CONST element")
         if v_xml is not None:
-            value = self._read_number(v_xml.text)
+            value = self._read_numerical_value(v_xml.text)
         elif vt_xml is not None:
             value = vt_xml.text or ""
         else:
@@ -1450,10 +1456,10 @@ class Reader:
             data["scale_constr"] = self._read_scale_constraints(xml_child)
         xml_child = child_elements.get("MAX-GRADIENT")
         if xml_child is not None:
-            data["max_gradient"] = self._read_number(xml_child.text)
+            data["max_gradient"] = self._read_numerical_value(xml_child.text)
         xml_child = child_elements.get("MAX-DIFF")
         if xml_child is not None:
-            data["max_diff"] = self._read_number(xml_child.text)
+            data["max_diff"] = self._read_numerical_value(xml_child.text)
         xml_child = child_elements.get("MONOTONY")
         if xml_child is not None:
             data["monotony"] = ar_enum.xml_to_enum("Monotony", xml_child.text)
@@ -1821,7 +1827,7 @@ class Reader:
             data['additional_native_type_qualifier'] = xml_child.text
         xml_child = child_elements.get('SW-INTENDED-RESOLUTION')
         if xml_child is not None:
-            data['intended_resolution'] = self._read_number(xml_child.text)
+            data['intended_resolution'] = self._read_numerical_value(xml_child.text)
         xml_child = child_elements.get('SW-INTERPOLATION-METHOD')
         if xml_child is not None:
             data['interpolation_method'] = xml_child.text
@@ -2926,7 +2932,7 @@ class Reader:
         """
         xml_child = child_elements.get("VALUE")
         if xml_child is not None:
-            data["value"] = self._read_number(xml_child.text)
+            data["value"] = self._read_numerical_value(xml_child.text)
 
     def _read_not_available_value_specification(self,
                                                 xml_element: ElementTree.Element
-- 
2.43.0


From f5f587ab6bd4cda603a6dfecb4121970a2027b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 74/91] fix: port API options without port were silently
 dropped

---
 src/autosar/xml/element.py | 7 ++++---
 src/autosar/xml/reader.py  | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index e160ee9..77b382d 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8126,9 +8126,10 @@ class SwcInternalBehavior(InternalBehavior):
         Generation options for port-related calls in the RTE.
         """
         if isinstance(element, PortApiOption):
-            if element.port is not None:
-                parts = str(element.port).split("/")
-                self.port_api_options[parts[-1]] = element
+            if element.port is None:
+                raise ValueError("element: The option must reference a port")
+            parts = str(element.port).split("/")
+            self.port_api_options[parts[-1]] = element
         else:
             raise TypeError(f"element: Expected type PortApiOption, got '{str(type(element))}'")
 
diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index cb21492..d6569f1 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -5816,7 +5816,11 @@ class Reader:
         if xml_child is not None:
             port_api_options = []
             for xml_grand_child in self._find_children(xml_child, "PORT-API-OPTION"):
-                port_api_options.append(self._read_port_api_option(xml_grand_child))
+                port_api_option = self._read_port_api_option(xml_grand_child)
+                if port_api_option.port is not None:
+                    port_api_options.append(port_api_option)
+                else:
+                    self._report_unprocessed_element(xml_grand_child)
             data["port_api_options"] = port_api_options
         xml_child = child_elements.get("RUNNABLES")
         if xml_child is not None:
-- 
2.43.0


From 17466b482a6fa198bb8afbc7398b9887d7a5d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:52 +0000
Subject: [PATCH 75/91] fix: a mode event for the name of a mode transition
 crashed instead of being refused

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 77b382d..16c7e1b 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8625,7 +8625,7 @@ class SwcInternalBehavior(InternalBehavior):
         if target_mode_declaration_group is None:
             raise ar_except.InvalidReferenceError(str(context_mode_declaration_group.type_ref))
         target_mode_declaration: ModeDeclaration | None = target_mode_declaration_group.find(mode_declaration_name)
-        if target_mode_declaration is None:
+        if not isinstance(target_mode_declaration, ModeDeclaration):
             raise ValueError(f"mode_ref: '{mode_ref}' does not name a valid mode declaration in ModeDeclarationGroup")
         return context_port, context_mode_declaration_group, target_mode_declaration
 
-- 
2.43.0


From 4d6736ed27562702db6f3d08892545869ed33e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:45 +0000
Subject: [PATCH 76/91] fix: access to a named mode group crashed when the
 interface has no mode group

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 16c7e1b..63735c3 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -6953,7 +6953,7 @@ class RunnableEntity(ExecutableEntity):
         """
         mode_group = None
         if len(mode_group_name) != 0:
-            if mode_group_name == port_interface.mode_group.name:
+            if port_interface.mode_group is not None and mode_group_name == port_interface.mode_group.name:
                 mode_group = port_interface.mode_group
         else:
             mode_group = port_interface.mode_group
-- 
2.43.0


From e0816e6934b098e53a45392a18146d6af75c24d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:47 +0000
Subject: [PATCH 77/91] fix: a mode event crashed when the type of the mode
 group is no mode group

---
 src/autosar/xml/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 63735c3..9dbec3e 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -8622,7 +8622,7 @@ class SwcInternalBehavior(InternalBehavior):
             raise ValueError(msg)
         target_mode_declaration_group: ModeDeclarationGroup | None
         target_mode_declaration_group = workspace.find(context_mode_declaration_group.type_ref)
-        if target_mode_declaration_group is None:
+        if not isinstance(target_mode_declaration_group, ModeDeclarationGroup):
             raise ar_except.InvalidReferenceError(str(context_mode_declaration_group.type_ref))
         target_mode_declaration: ModeDeclaration | None = target_mode_declaration_group.find(mode_declaration_name)
         if not isinstance(target_mode_declaration, ModeDeclaration):
-- 
2.43.0


From 285f09109ba0fae3b9e9b3039d157aec92ae325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:09 +0000
Subject: [PATCH 78/91] fix: floats were rounded when the application has set a
 smaller decimal precision

---
 src/autosar/xml/writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 6a4a22b..4e6d662 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -148,11 +148,12 @@ class _XMLWriter:
         if math.isnan(value):
             return 'NaN'
         else:
+            context = decimal.Context(prec=28, traps=[])  # The context of the application may round more
             tmp = decimal.Decimal(str(value))
-            if tmp == tmp.to_integral() and tmp.adjusted() < decimal.getcontext().prec:
-                result = tmp.quantize(decimal.Decimal(1))
+            if tmp == tmp.to_integral(context=context) and tmp.adjusted() < context.prec:
+                result = tmp.quantize(decimal.Decimal(1), context=context)
             else:
-                result = tmp.normalize()
+                result = tmp.normalize(context)
             return str(result)
 
     def _format_number(self, number: int | float | ar_element.NumericalValue) -> str:
-- 
2.43.0


From a0e0fcb18b26119e7ca8304e672b4ea0caf43c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:41 +0000
Subject: [PATCH 79/91] fix: mode access points (and external triggering
 points) of a runnable could get the same name

---
 src/autosar/xml/element.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/autosar/xml/element.py b/src/autosar/xml/element.py
index 9dbec3e..3b5b0f9 100644
--- a/src/autosar/xml/element.py
+++ b/src/autosar/xml/element.py
@@ -7160,9 +7160,11 @@ class RunnableEntity(ExecutableEntity):
         External triggering point
         """
         if isinstance(element, ExternalTriggeringPoint):
-            self.external_triggering_point.append(element)
             if element.ident is not None:
+                idents = [other.ident for other in self.external_triggering_point if other.ident is not None]
+                make_element_unique_in_list(idents, element.ident)
                 element.ident.parent = self
+            self.external_triggering_point.append(element)
         else:
             raise TypeError(f"element: Expected type ExternalTriggeringPoint, got '{str(type(element))}'")
 
@@ -7182,9 +7184,11 @@ class RunnableEntity(ExecutableEntity):
         Mode access point
         """
         if isinstance(element, ModeAccessPoint):
-            self.mode_access_point.append(element)
             if element.ident is not None:
+                idents = [other.ident for other in self.mode_access_point if other.ident is not None]
+                make_element_unique_in_list(idents, element.ident)
                 element.ident.parent = self
+            self.mode_access_point.append(element)
         else:
             raise TypeError(f"element: Expected type ModeAccessPoint, got '{str(type(element))}'")
 
-- 
2.43.0


From bfb4a119e76baafcefed3d0de12524b354408eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:31 +0000
Subject: [PATCH 80/91] fix: a refused writing left a truncated file behind, in
 place of the one that was there

---
 src/autosar/xml/writer.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/writer.py b/src/autosar/xml/writer.py
index 4e6d662..ae9167e 100644
--- a/src/autosar/xml/writer.py
+++ b/src/autosar/xml/writer.py
@@ -50,6 +50,17 @@ class _XMLWriter:
     def _close(self):
         self.fh.close()
 
+    def _save(self, text: str, file_path: str):
+        """
+        Writes text that is complete: an existing file isn't touched before
+        """
+        text.encode('utf-8')  # also fails before the file is touched
+        self._open(file_path)
+        try:
+            self.fh.write(text)
+        finally:
+            self._close()
+
     def _indent(self):
         self.indentation_level += 1
         self.indentation_str = self.indentation_char * \
@@ -431,9 +442,7 @@ class Writer(_XMLWriter):
         """
         Serialized the document to file
         """
-        self._open(file_path)
-        self._write_document(document)
-        self._close()
+        self._save(self.write_str(document, skip_root_attr=False), file_path)
 
     def write_str_elem(self, elem: ar_element.ARObject, tag: str | None = None):
         """
@@ -456,14 +465,14 @@ class Writer(_XMLWriter):
         """
         Writes single ARXML element to file
         """
-        self._open(file_path)
+        self._str_open()
         class_name = elem.__class__.__name__
         write_method = self.switcher_collectable.get(class_name, None)
         if write_method is not None:
             write_method(elem)
         else:
             raise NotImplementedError(f"Found no writer for {class_name}")
-        self._close()
+        self._save(self.fh.getvalue(), file_path)
 
     # Abstract base classes
 
-- 
2.43.0


From 8f13db96e18215c620fb06858f0a9ea66844fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:57 +0000
Subject: [PATCH 81/91] fix: a document that names a package that doesn't exist
 (any more, or yet) could not be written

---
 src/autosar/xml/workspace.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/autosar/xml/workspace.py b/src/autosar/xml/workspace.py
index 0ad4780..865dfd6 100644
--- a/src/autosar/xml/workspace.py
+++ b/src/autosar/xml/workspace.py
@@ -245,8 +245,6 @@ class Workspace(ar_element.PackageCollection):
                 container = document.make_packages(parent_ref) if parent_ref else document
                 container.append(package)
                 package.parent = parent  # It still belongs to the workspace
-            else:
-                document.append(package)
         if self.document_root is not None:
             file_path = os.path.join(self.document_root, file_path)
         writer.write_file(document, file_path)
-- 
2.43.0


From db15fd706c603749ff95cb1447d1f88abfcc69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:50 +0000
Subject: [PATCH 82/91] fix: members given twice, and other content of wrappers
 for one element, were dropped without a report

---
 src/autosar/xml/reader.py | 65 ++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index d6569f1..9c33de1 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -73,10 +73,13 @@ class ChildElementMap:
 
     def __init__(self, elem: ElementTree.Element) -> None:
         self.elements: dict[str, WrappedElement] = {}
+        self.duplicates: list[ElementTree.Element] = []  # Only the first element with each tag can be accessed
         for child_elem in elem.findall('./*'):
             tag = str(child_elem.tag)
             if tag not in self.elements:
                 self.elements[tag] = WrappedElement(child_elem)
+            else:
+                self.duplicates.append(child_elem)
 
     def get(self, tag: str) -> ElementTree.Element:
         """
@@ -416,6 +419,18 @@ class Reader:
                 self._report_unprocessed_element(xml_child)
         return children
 
+    def _find_single_child(self, xml_element: ElementTree.Element, *tags: str) -> ElementTree.Element | None:
+        """
+        Returns the first child element with one of the given tags (or any tag) and reports about all others
+        """
+        child = None
+        for xml_child in xml_element.findall("./*"):
+            if child is None and (len(tags) == 0 or xml_child.tag in tags):
+                child = xml_child
+            else:
+                self._report_unprocessed_element(xml_child)
+        return child
+
     def _report_unprocessed_elements(self, xml_elements: ChildElementMap):
         """
         Reports about unprocessed child elements
@@ -423,6 +438,8 @@ class Reader:
         for xml_elem in [x.elem for x in xml_elements.values() if not x.is_accessed]:
             assert xml_elem is not None
             self._report_unprocessed_element(xml_elem)
+        for xml_elem in xml_elements.duplicates:
+            self._report_unprocessed_element(xml_elem)
 
     def _report_unprocessed_element(self, xml_elem: ElementTree.Element):
         """
@@ -2259,7 +2276,7 @@ class Reader:
         """
         xml_child = child_elements.get('INIT-VALUE')
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         child_elements.skip('VARIATION-POINT')  # Not supported
@@ -2286,7 +2303,7 @@ class Reader:
         """
         xml_child = child_elements.get('INIT-VALUE')
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         child_elements.skip('VARIATION-POINT')  # Not supported
@@ -3091,7 +3108,7 @@ class Reader:
         """
         xml_child = child_elements.get("VALUE-SPEC")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["value"] = self._read_value_specification_element(xml_grand_child)
 
@@ -3879,7 +3896,7 @@ class Reader:
             data["data_filter"] = self._read_data_filter(xml_child)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
 
@@ -3902,12 +3919,12 @@ class Reader:
         """
         xml_child = child_elements.get("RAM-BLOCK-INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["ram_block_init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("ROM-BLOCK-INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["rom_block_init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("VARIABLE-REF")
@@ -3925,7 +3942,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("PARAMETER-REF")
@@ -4079,12 +4096,12 @@ class Reader:
             data["handle_timeout_type"] = ar_enum.xml_to_enum("HandleTimeout", xml_child.text)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("TIMEOUT-SUBSTITUTION-VALUE")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["timeout_substitution_value"] = self._read_value_specification_element(xml_grand_child)
 
@@ -4097,7 +4114,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("VARIABLE-REF")
@@ -4117,7 +4134,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("PARAMETER-REF")
@@ -4331,7 +4348,7 @@ class Reader:
         xml_child = child_elements.get("INTERNAL-BEHAVIORS")
         if xml_child is not None:
             # We only support max 1 internal behavior element
-            xml_grand_child = xml_child.find("./SWC-INTERNAL-BEHAVIOR")
+            xml_grand_child = self._find_single_child(xml_child, "SWC-INTERNAL-BEHAVIOR")
             if xml_grand_child is not None:
                 data["internal_behavior"] = self._read_swc_internal_behavior(xml_grand_child)
         xml_child = child_elements.get("SYMBOL-PROPS")
@@ -4438,9 +4455,10 @@ class Reader:
         self._read_sw_connector(child_elements, data)
         xml_child = child_elements.get("INNER-PORT-IREF")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
-            if xml_grand_child is not None and xml_grand_child.tag in ("P-PORT-IN-COMPOSITION-INSTANCE-REF",
-                                                                       "R-PORT-IN-COMPOSITION-INSTANCE-REF"):
+            xml_grand_child = self._find_single_child(xml_child,
+                                                      "P-PORT-IN-COMPOSITION-INSTANCE-REF",
+                                                      "R-PORT-IN-COMPOSITION-INSTANCE-REF")
+            if xml_grand_child is not None:
                 data["inner_port"] = self._read_port_in_composition_type_instance_ref(xml_grand_child)
         xml_child = child_elements.get("OUTER-PORT-REF")
         if xml_child is not None:
@@ -5014,12 +5032,15 @@ class Reader:
         if xml_child is not None:
             data["ident"] = self._read_mode_access_point_ident(xml_child)
         xml_child = child_elements.get("MODE-GROUP-IREF")
-        if xml_child is not None and len(xml_child) > 0:
-            xml_grand_child = xml_child[0]
-            if xml_grand_child.tag == "P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
-                data["mode_group"] = self._read_p_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
-            elif xml_grand_child.tag == "R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
-                data["mode_group"] = self._read_r_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
+        if xml_child is not None:
+            xml_grand_child = self._find_single_child(xml_child,
+                                                      "P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF",
+                                                      "R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF")
+            if xml_grand_child is not None:
+                if xml_grand_child.tag == "P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF":
+                    data["mode_group"] = self._read_p_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
+                else:
+                    data["mode_group"] = self._read_r_mode_group_in_atomic_swc_instance_ref(xml_grand_child)
         child_elements.skip("VARIATION-POINT")
         self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPoint(**data)
@@ -5663,7 +5684,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("VALUE")
         if xml_child is not None:
-            xml_grand_child = xml_child.find("./*")
+            xml_grand_child = self._find_single_child(xml_child)
             if xml_grand_child is not None:
                 data["value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("VALUE-TYPE-TREF")
-- 
2.43.0


From 1df065c7b894bf6e206318e0699f22c6d9bf8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:52 +0000
Subject: [PATCH 83/91] fix: reading an index entry with child elements dropped
 them, and the text after them, without a report

---
 src/autosar/xml/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 9c33de1..45c783a 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -832,7 +832,11 @@ class Reader:
         Limitations: Doesn't support child-elements even though it's allowed in the scehema
         Type: Concrete
         """
-        return ar_element.IndexEntry(elem.text or "")
+        text = elem.text or ""
+        for xml_child_elem in elem.findall('./*'):
+            self._report_unprocessed_element(xml_child_elem)
+            text += xml_child_elem.tail or ""
+        return ar_element.IndexEntry(text)
 
     def _read_technical_term(self,
                              elem: ElementTree.Element) -> ar_element.TechnicalTerm:
-- 
2.43.0


From 927432d78c0068398bd1bb3b052522d8761f7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 84/91] fix: an unsupported element in front of a value hid the
 value

---
 src/autosar/xml/reader.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 45c783a..a826d6e 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -421,11 +421,11 @@ class Reader:
 
     def _find_single_child(self, xml_element: ElementTree.Element, *tags: str) -> ElementTree.Element | None:
         """
-        Returns the first child element with one of the given tags (or any tag) and reports about all others
+        Returns the first child element with one of the given tags and reports about all others
         """
         child = None
         for xml_child in xml_element.findall("./*"):
-            if child is None and (len(tags) == 0 or xml_child.tag in tags):
+            if child is None and xml_child.tag in tags:
                 child = xml_child
             else:
                 self._report_unprocessed_element(xml_child)
@@ -2280,7 +2280,7 @@ class Reader:
         """
         xml_child = child_elements.get('INIT-VALUE')
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         child_elements.skip('VARIATION-POINT')  # Not supported
@@ -2307,7 +2307,7 @@ class Reader:
         """
         xml_child = child_elements.get('INIT-VALUE')
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         child_elements.skip('VARIATION-POINT')  # Not supported
@@ -3112,7 +3112,7 @@ class Reader:
         """
         xml_child = child_elements.get("VALUE-SPEC")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["value"] = self._read_value_specification_element(xml_grand_child)
 
@@ -3900,7 +3900,7 @@ class Reader:
             data["data_filter"] = self._read_data_filter(xml_child)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
 
@@ -3923,12 +3923,12 @@ class Reader:
         """
         xml_child = child_elements.get("RAM-BLOCK-INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["ram_block_init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("ROM-BLOCK-INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["rom_block_init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("VARIABLE-REF")
@@ -3946,7 +3946,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("PARAMETER-REF")
@@ -4100,12 +4100,12 @@ class Reader:
             data["handle_timeout_type"] = ar_enum.xml_to_enum("HandleTimeout", xml_child.text)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("TIMEOUT-SUBSTITUTION-VALUE")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["timeout_substitution_value"] = self._read_value_specification_element(xml_grand_child)
 
@@ -4118,7 +4118,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("VARIABLE-REF")
@@ -4138,7 +4138,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("INIT-VALUE")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["init_value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("PARAMETER-REF")
@@ -5688,7 +5688,7 @@ class Reader:
         child_elements = ChildElementMap(xml_element)
         xml_child = child_elements.get("VALUE")
         if xml_child is not None:
-            xml_grand_child = self._find_single_child(xml_child)
+            xml_grand_child = self._find_single_child(xml_child, *self.switcher_value_specification)
             if xml_grand_child is not None:
                 data["value"] = self._read_value_specification_element(xml_grand_child)
         xml_child = child_elements.get("VALUE-TYPE-TREF")
-- 
2.43.0


From c25017bfd89a7417361e6c0cf9da268619f71d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:10 +0000
Subject: [PATCH 85/91] fix: elements that may occur several times are not
 reported as given twice

---
 src/autosar/xml/reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index a826d6e..aa32166 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -100,6 +100,7 @@ class ChildElementMap:
         wrapped = self.elements.get(tag, None)
         if wrapped is not None:
             wrapped.is_accessed = True
+        self.duplicates = [child_elem for child_elem in self.duplicates if child_elem.tag != tag]
 
     def values(self) -> Iterable[WrappedElement]:
         """
@@ -5088,7 +5089,6 @@ class Reader:
         xml_child = child_elements.get("TARGET-DATA-PROTOTYPE-REF")
         if xml_child is not None:
             data["target_data_prototype"] = self._read_data_prototype_ref(xml_child)
-        xml_child = child_elements.get("MODE-GROUP-IREF")
         child_elements.skip("VARIATION-POINT")
         self._report_unprocessed_elements(child_elements)
         return ar_element.ParameterInAtomicSwcTypeInstanceRef(**data)
@@ -5836,7 +5836,6 @@ class Reader:
         child_elements.skip("INSTANTIATION-DATA-DEF-PROPSS")
         child_elements.skip("PER-INSTANCE-MEMORYS")
         child_elements.skip("PER-INSTANCE-PARAMETERS")
-        child_elements.skip("PORT-API-OPTIONS")
         xml_child = child_elements.get("PORT-API-OPTIONS")
         if xml_child is not None:
             port_api_options = []
-- 
2.43.0


From 3b0ffea8af58b5b5cfbe9423ec2456a190be9e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:19 +0000
Subject: [PATCH 86/91] fix: reading RECEPTION-PROPS took members of receiver
 com-specs and lost the element

---
 src/autosar/xml/reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index aa32166..1b9d0f6 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3995,7 +3995,6 @@ class Reader:
         """
         data = {}
         child_elements = ChildElementMap(xml_element)
-        self._read_receiver_com_spec(child_elements, data)
         xml_child = child_elements.get("DATA-UPDATE-PERIOD")
         if xml_child is not None:
             data["data_update_period"] = self._read_number(xml_child.text)
-- 
2.43.0


From 650255c47de165d1ab1ad0c09553301b50658768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:21 +0000
Subject: [PATCH 87/91] fix: DATA-FILTER, CODE and AUTOSAR-ENGINEERING-OBJECT
 were taken for elements of a package; reading the last one aborted the whole
 file

---
 src/autosar/xml/reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 1b9d0f6..d9c1c89 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -136,11 +136,6 @@ class Reader:
             # CompuMethod
             'COMPU-METHOD': self._read_compu_method,
 
-            # Common structure and general template elements
-            'DATA-FILTER': self._read_data_filter,
-            'AUTOSAR-ENGINEERING-OBJECT': self._read_autosar_engineering_object,
-            'CODE': self._read_code,
-
             # DataType and DataDictionary elements
             'APPLICATION-ARRAY-DATA-TYPE': self._read_application_array_data_type,
             'APPLICATION-RECORD-DATA-TYPE': self._read_application_record_data_type,
@@ -224,6 +219,10 @@ class Reader:
             'TRANSFORMER-HARD-ERROR-EVENT': self._read_transformer_hard_error_event,
         }
         self.switcher_non_collectable = {  # Non-collectable, used only for unit testing
+            # Common structure and general template elements
+            'DATA-FILTER': self._read_data_filter,
+            'AUTOSAR-ENGINEERING-OBJECT': self._read_autosar_engineering_object,
+            'CODE': self._read_code,
             # Documentation elements
             'ANNOTATION': self._read_annotation,
             'ANNOTATION-TEXT': self._read_documentation_block,
-- 
2.43.0


From 48066de93d8f752f6c14c58604afe10dc9c2ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:23 +0000
Subject: [PATCH 88/91] fix: a LONG-NAME where only a SHORT-NAME is expected
 made the element be lost instead of being reported

---
 src/autosar/xml/reader.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index d9c1c89..5001b8b 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -529,10 +529,6 @@ class Reader:
         else:
             raise ar_exception.ParseError(
                 "Missing required element SHORT-NAME")
-        xml_long_name = element_map.get('LONG-NAME')
-        if xml_long_name is not None:
-            data['long_name'] = self._read_multi_language_long_name(
-                xml_long_name)
 
     def _read_multi_language_referrable(self, element_map: ChildElementMap, data: dict) -> None:
         """
-- 
2.43.0


From 34c3919ade3329be09ebd9585f61422d907f157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:24 +0000
Subject: [PATCH 89/91] fix: reading a component prototype took the members of
 a component type and lost the prototype

---
 src/autosar/xml/reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index 5001b8b..d46d3b3 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -4381,7 +4381,6 @@ class Reader:
         self._read_referrable(child_elements, data)
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
-        self._read_sw_component_type(child_elements, data)
         xml_child = child_elements.get("TYPE-TREF")
         if xml_child is not None:
             data["type_ref"] = self._read_sw_component_type_ref(xml_child)
-- 
2.43.0


From f10420bd8720e371a7cda0c37d34c0d5d4b38098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:26 +0000
Subject: [PATCH 90/91] fix: a mode declaration inside a mode declaration was
 skipped without a report

---
 src/autosar/xml/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index d46d3b3..d2635fb 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -3276,7 +3276,7 @@ class Reader:
         xml_child = child_elements.get('VALUE')
         if xml_child is not None:
             data["value"] = ar_element.PositiveIntegerValue(xml_child.text).value
-        child_elements.skip("MODE-DECLARATION")  # Not supported
+        child_elements.skip("VARIATION-POINT")  # Not supported
         self._report_unprocessed_elements(child_elements)
         return ar_element.ModeDeclaration(**data)
 
-- 
2.43.0


From 79c89f9a6548a09122619b03c4f8f93cc4d8333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:28 +0000
Subject: [PATCH 91/91] fix: reading the identification of a mode access point
 took the members of a server call result point and lost it

---
 src/autosar/xml/reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/autosar/xml/reader.py b/src/autosar/xml/reader.py
index d2635fb..cdef306 100644
--- a/src/autosar/xml/reader.py
+++ b/src/autosar/xml/reader.py
@@ -5015,7 +5015,6 @@ class Reader:
         self._read_multi_language_referrable(child_elements, data)
         self._read_identifiable(child_elements, xml_element.attrib, data)
         self._read_abstract_access_point(child_elements, data)
-        self._read_async_server_call_result_point_group(child_elements, data)
         self._report_unprocessed_elements(child_elements)
         return ar_element.ModeAccessPointIdent(**data)
 
-- 
2.43.0

