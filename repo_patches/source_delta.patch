From 28e801f10a6576b36d24b35e4236803ed14e7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:01 +0000
Subject: [PATCH 01/83] fix: enumerate facts that have no id

---
 brel/data/fact/in_memory_fact_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/data/fact/in_memory_fact_repository.py b/brel/data/fact/in_memory_fact_repository.py
index 6eb46ae..a299f08 100644
--- a/brel/data/fact/in_memory_fact_repository.py
+++ b/brel/data/fact/in_memory_fact_repository.py
@@ -31,7 +31,7 @@ class InMemoryFactRepository(FactRepository):
         return id in self.__facts_by_id
 
     def get_all(self):
-        return list(self.__facts_by_id.values())
+        return list(self.__facts_by_id.values()) + self.__facts_without_id
 
     def upsert(self, fact: Fact) -> None:
         """
-- 
2.43.0


From 7d64cc6d72dcb430a777d4a08bf193c3c8d21573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:21 +0000
Subject: [PATCH 02/83] fix: read decimals and precision of facts in XML
 reports

---
 brel/parsers/XML/xml_facts_parser.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 73cf669..5ce504d 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -20,6 +20,9 @@ from brel.characteristics import *
 from brel.errors.error_code import ErrorCode
 from brel.errors.error_instance import ErrorInstance
 from brel.parsers.XML.characteristics import parse_unit_from_xml
+from brel.parsers.XHMTL.elements.parse_non_fraction import (
+    parse_decimals_or_precision,
+)
 from brel.parsers.XML.xml_context_parser import parse_context_xml
 from brel.parsers.utils.error_utils import error_on_none
 from brel.qnames.qname_utils import qname_from_str
@@ -80,7 +83,29 @@ def parse_fact_from_xml(
             context_concept=context_concept.get_value().get_name().clark_notation(),
         )
 
-    fact_repository.upsert(Fact(context, fact_value, fact_id))
+    decimals: float | None = None
+    decimals_str = fact_xml_element.get("decimals")
+    try:
+        decimals = parse_decimals_or_precision(decimals_str, True)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_DECIMALS_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            decimals=decimals_str,
+        )
+
+    precision: float | None = None
+    precision_str = fact_xml_element.get("precision")
+    try:
+        precision = parse_decimals_or_precision(precision_str, False)
+    except ValueError:
+        error_repository.insert(
+            ErrorCode.INVALID_PRECISION_ATTRIBUTE_VALUE,
+            fact_xml_element,
+            precision=precision_str,
+        )
+
+    fact_repository.upsert(Fact(context, fact_value, fact_id, decimals, precision))
 
 
 def parse_facts_xml(
-- 
2.43.0


From 289d89cbb85157db9cf944cfdc510ea7c639a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:41 +0000
Subject: [PATCH 03/83] fix: keep entities with the same identifier but
 different schemes apart

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index cc4b5da..097bf30 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -54,9 +54,12 @@ def parse_entity_from_xml(
         f"Could not find text in identifier element {identifier_element}",
         return None
 
-    if characteristic_repository.has(entity_id, EntityCharacteristic):
-        return characteristic_repository.get(entity_id, EntityCharacteristic)
+    # an identifier is only unique within its scheme
+    entity_key = f"{{{entity_url}}}{entity_id}"
+
+    if characteristic_repository.has(entity_key, EntityCharacteristic):
+        return characteristic_repository.get(entity_key, EntityCharacteristic)
     else:
         entity_characteristic = EntityCharacteristic(entity_id, entity_url)
-        characteristic_repository.upsert(entity_id, entity_characteristic)
+        characteristic_repository.upsert(entity_key, entity_characteristic)
         return entity_characteristic
-- 
2.43.0


From b68e666274e39b47d4adf3a65b168f5b360aac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:43 +0000
Subject: [PATCH 04/83] fix: do not swap the report and system language
 switches

---
 brel/brel_filing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 80ff7b5..65a72de 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -567,8 +567,8 @@ class Filing:
 
         languages = self.get_preferred_languages(
             kwargs.get("languages"),
-            allow_system_language,
             allow_report_language,
+            allow_system_language,
             allow_default,
         )
 
-- 
2.43.0


From 2e71a83c434cfd553569c7f98a8393aa15544ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:45 +0000
Subject: [PATCH 05/83] fix: check aggregation consistency below nodes without
 facts

---
 brel/networks/calculation_network.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 4b37881..77f04b1 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -206,11 +206,11 @@ class CalculationNetwork(INetwork):
                 if node_value != children_sum:
                     return False
 
-                # check the children
-                for child in node.get_children():
-                    child = cast(CalculationNetworkNode, child)
-                    if not is_subnetwork_aggregation_consistent(child):
-                        return False
+            # check the children
+            for child in node.get_children():
+                child = cast(CalculationNetworkNode, child)
+                if not is_subnetwork_aggregation_consistent(child):
+                    return False
 
             return True
 
-- 
2.43.0


From d82d58e03b1e0d3f732597775acecfb414f98ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:48 +0000
Subject: [PATCH 06/83] fix: compare qualified names by namespace and local
 name only

---
 brel/qnames/qname.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brel/qnames/qname.py b/brel/qnames/qname.py
index 15af6a9..2075173 100644
--- a/brel/qnames/qname.py
+++ b/brel/qnames/qname.py
@@ -8,13 +8,14 @@
 ====================
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 
 @dataclass(frozen=True, eq=True)
 class QName:
     uri: str
-    prefix: str
+    # the prefix is only a shorthand for the uri, so it takes no part in equality and hashing
+    prefix: str = field(compare=False)
     local_name: str
 
     def get_URL(self) -> str:
-- 
2.43.0


From a54925bb6fad635187e7486cfa02054144e0c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:50 +0000
Subject: [PATCH 07/83] fix: apply the longest matching URI rewrite

---
 .../in_memory_uri_rewrite_repository.py            | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
index f049936..f83f594 100644
--- a/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
+++ b/brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py
@@ -22,8 +22,14 @@ class InMemoryURIRewriteRepository(URIRewriteRepository):
         del self.__catalog[original_string]
 
     def rewrite(self, uri: str) -> str:
-        for original_string, replacement_string in self.__catalog.items():
-            if uri.startswith(original_string):
-                return replacement_string + uri[len(original_string) :]
+        matches = [
+            original_string
+            for original_string in self.__catalog
+            if uri.startswith(original_string)
+        ]
 
-        return uri
+        if not matches:
+            return uri
+
+        longest_match = max(matches, key=len)
+        return self.__catalog[longest_match] + uri[len(longest_match) :]
-- 
2.43.0


From 906e65966bd5c33fed72a44fda6d8bd2d8fa5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:52 +0000
Subject: [PATCH 08/83] fix: fill in the message about divide elements with
 equal children

---
 brel/errors/error_factory_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 40cd86b..338bbe5 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -188,7 +188,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.XML_INSTANCE,
         "004",
-        "The unit {id} has a divide element with two children with the same tag: lambda: ErrorInstance(tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
+        "The unit {id} has a divide element with two children with the same tag: {tag}. One should be 'unitNumerator' and the other 'unitDenominator'",
         "Check the children of the `divide` element. Did you forget to rename one of the children?",
     ),
     ErrorCode.XML_INVALID_UNIT_ELEMENT_CHILDREN: lambda: ErrorInstance(
-- 
2.43.0


From fc0a8a0079e40169bfe94e5a993190cab3d5e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:37 +0000
Subject: [PATCH 09/83] fix: find report elements by names in clark notation

---
 brel/qnames/qname_search_params.py            | 11 ++++---
 .../report_element/report_element_service.py  | 30 ++++---------------
 2 files changed, 11 insertions(+), 30 deletions(-)

diff --git a/brel/qnames/qname_search_params.py b/brel/qnames/qname_search_params.py
index 53daa7c..abaca15 100644
--- a/brel/qnames/qname_search_params.py
+++ b/brel/qnames/qname_search_params.py
@@ -23,7 +23,7 @@ class QNameSearchParams:
         """
         Check if the given string is in Clark notation.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^\}]+)\}(?P<local_name>[^\{\}]+)$"
         match = re.match(re_expression, clark_notation)
         return match is not None
 
@@ -32,17 +32,16 @@ class QNameSearchParams:
         """
         Create a QNameSearchParams object from a Clark notation string.
         """
-        re_expression = r"^(?P<prefix>[^:]+):(?P<local_name>[^:]+)$"
+        re_expression = r"^\{(?P<uri>[^\}]+)\}(?P<local_name>[^\{\}]+)$"
         match = re.match(re_expression, clark_notation)
         if not match:
             raise ValueError(
-                f"Invalid Clark notation: {clark_notation}. Expected format: prefix:local_name"
+                f"Invalid Clark notation: {clark_notation}. Expected format: {{uri}}local_name"
             )
 
-        prefix = match.group("prefix")
+        uri = match.group("uri")
         local_name = match.group("local_name")
-        uri = None
-        return cls(local_name=local_name, uri=uri, prefix=prefix)
+        return cls(local_name=local_name, uri=uri, prefix=None)
 
     @staticmethod
     def is_prefix_local_name_notation(prefix_local_name: str) -> bool:
diff --git a/brel/services/report_element/report_element_service.py b/brel/services/report_element/report_element_service.py
index 23d6155..6d6552e 100644
--- a/brel/services/report_element/report_element_service.py
+++ b/brel/services/report_element/report_element_service.py
@@ -31,28 +31,19 @@ class ReportElementService:
         if search_params.uri:
             uri_candidates.add(search_params.uri)
 
-        prefix_candidates: set[str] = set()
-        if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
-
-        if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
-                self.__namespace_repository.get_prefixes(search_params.uri)
-            )
-        elif not search_params.uri and search_params.prefix:
+        if not search_params.uri and search_params.prefix:
             uri_candidates = set(
                 self.__namespace_repository.get_uris(search_params.prefix)
             )
 
-        if uri_candidates or prefix_candidates:
+        if search_params.uri or search_params.prefix:
             qname_candidates = (
                 QName(
                     uri,
-                    prefix,
+                    search_params.prefix or "",
                     search_params.local_name,
                 )
                 for uri in uri_candidates
-                for prefix in prefix_candidates
             )
 
             matching_qnames = filter(
@@ -83,20 +74,12 @@ class ReportElementService:
         if search_params.uri:
             uri_candidates.add(search_params.uri)
 
-        prefix_candidates: set[str] = set()
-        if search_params.prefix:
-            prefix_candidates.add(search_params.prefix)
-
-        if search_params.uri and not search_params.prefix:
-            prefix_candidates = set(
-                self.__namespace_repository.get_prefixes(search_params.uri)
-            )
-        elif not search_params.uri and search_params.prefix:
+        if not search_params.uri and search_params.prefix:
             uri_candidates = set(
                 self.__namespace_repository.get_uris(search_params.prefix)
             )
 
-        if uri_candidates or prefix_candidates:
+        if search_params.uri or search_params.prefix:
             return list(
                 map(
                     self.__report_element_repository.get_by_qname,
@@ -105,11 +88,10 @@ class ReportElementService:
                         [
                             QName(
                                 uri,
-                                prefix,
+                                search_params.prefix or "",
                                 search_params.local_name,
                             )
                             for uri in uri_candidates
-                            for prefix in prefix_candidates
                         ],
                     ),
                 )
-- 
2.43.0


From 0528985967925ce9227e741533e055eacf390e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:32 +0000
Subject: [PATCH 10/83] fix: diagnose typed members of unknown dimensions
 instead of failing

---
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index b06f67c..f467893 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -71,6 +71,7 @@ def parse_typed_dimension_from_xml(
             xml_element,
             dimension=dimension_axis,
         )
+        return None
 
     i_report_element = report_element_repository.get_typed_by_qname(
         dimension_qname, Dimension
-- 
2.43.0


From 510b58135979fa72651bc88076cbfe34a91e5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:34 +0000
Subject: [PATCH 11/83] fix: share dimension characteristics by qualified name,
 not by prefix

---
 .../XML/characteristics/xml_parse_explicit_dimension.py       | 4 +++-
 brel/parsers/XML/characteristics/xml_parse_typed_dimension.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
index b75f1ec..c68a95c 100644
--- a/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py
@@ -83,7 +83,9 @@ def parse_explicit_dimension_from_xml(
 
     member = report_element_repository.get_typed_by_qname(member_qname, Member)
 
-    dimension_id = f"{aspect_id} {member_id}"
+    dimension_id = (
+        f"{dimension_qname.clark_notation()} {member_qname.clark_notation()}"
+    )
     if not characteristic_repository.has(dimension_id, ExplicitDimensionCharacteristic):
         characteristic_repository.upsert(
             dimension_id,
diff --git a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
index f467893..6631b1a 100644
--- a/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
+++ b/brel/parsers/XML/characteristics/xml_parse_typed_dimension.py
@@ -103,7 +103,7 @@ def parse_typed_dimension_from_xml(
 
         return None
 
-    dimension_id = f"{dimension_axis} {dimension_value}"
+    dimension_id = f"{dimension_qname.clark_notation()} {dimension_value}"
     if not characteristic_repository.has(dimension_id, TypedDimensionCharacteristic):
         dimension_characteristic = TypedDimensionCharacteristic(
             i_report_element, dimension_value, dimension_aspect
-- 
2.43.0


From b6fcbe8387c20abaae19695a04956dd5063d7cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:51 +0000
Subject: [PATCH 12/83] fix: read all measures of divided units and diagnose
 incomplete ones

---
 .../XML/characteristics/xml_parse_unit.py     | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_unit.py b/brel/parsers/XML/characteristics/xml_parse_unit.py
index 21fe6a9..a5b5f4b 100644
--- a/brel/parsers/XML/characteristics/xml_parse_unit.py
+++ b/brel/parsers/XML/characteristics/xml_parse_unit.py
@@ -107,18 +107,29 @@ def parse_unit_from_xml(
                         child_tag=num_or_denom_tag,
                     )
 
-                measure_child = num_or_denom[0]
-                child_qname = parse_unit_measure_from_xml(measure_child, filing_context)
-
-                if not child_qname:
+                if len(num_or_denom) == 0:
+                    error_repository.insert(
+                        ErrorCode.XML_MISSING_UNIT_MEASURE, num_or_denom
+                    )
                     return None
 
-                if "unitNumerator" in num_or_denom_tag:
-                    numerators.append(child_qname)
-                elif "unitDenominator" in num_or_denom_tag:
-                    denominators.append(child_qname)
+                for measure_child in num_or_denom:
+                    child_qname = parse_unit_measure_from_xml(
+                        measure_child, filing_context
+                    )
+
+                    if not child_qname:
+                        return None
+
+                    if "unitNumerator" in num_or_denom_tag:
+                        numerators.append(child_qname)
+                    elif "unitDenominator" in num_or_denom_tag:
+                        denominators.append(child_qname)
 
-            if num_and_denom[0].tag == num_and_denom[1].tag:
+            if (
+                len(num_and_denom) == 2
+                and num_and_denom[0].tag == num_and_denom[1].tag
+            ):
                 error_repository.insert(
                     ErrorCode.XML_DUPLICATE_DIVIDE_ELEMENT_CHILDREN,
                     xml_element,
-- 
2.43.0


From 4e5fab304e3a65882d016d942976c3d10a4a6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:53 +0000
Subject: [PATCH 13/83] fix: do not confuse units of different documents with
 the same id

---
 brel/parsers/XML/xml_facts_parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 5ce504d..0e435da 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -121,7 +121,7 @@ def parse_facts_xml(
 
     xml_service = context.get_xml_service()
 
-    for xbrl_instance in xml_service.get_all_etrees():
+    for instance_number, xbrl_instance in enumerate(xml_service.get_all_etrees()):
         for xml_fact in find_elements(xbrl_instance, ".//*[@contextRef]"):
             fact_characteristics: list[UnitCharacteristic | ConceptCharacteristic] = []
 
@@ -165,15 +165,17 @@ def parse_facts_xml(
 
                     continue
 
-                if not characteristics_repository.has(unit_id, UnitCharacteristic):
+                # unit ids are only unique within their document
+                unit_key = f"{instance_number} {unit_id}"
+                if not characteristics_repository.has(unit_key, UnitCharacteristic):
                     new_unit = parse_unit_from_xml(context, unit_xml)
                     if not new_unit:
                         continue
 
-                    characteristics_repository.upsert(unit_id, new_unit)
+                    characteristics_repository.upsert(unit_key, new_unit)
 
                 unit_characteristic = characteristics_repository.get(
-                    unit_id, UnitCharacteristic
+                    unit_key, UnitCharacteristic
                 )
 
                 fact_characteristics.append(
-- 
2.43.0


From 03570b8f0b73ed1725c9db28d6441b25eaf4943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:56 +0000
Subject: [PATCH 14/83] fix: keep the order of definition arcs as written

---
 brel/parsers/XML/networks/xml_definition_network_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_definition_network_factory.py b/brel/parsers/XML/networks/xml_definition_network_factory.py
index 2a67a3d..24f9eea 100644
--- a/brel/parsers/XML/networks/xml_definition_network_factory.py
+++ b/brel/parsers/XML/networks/xml_definition_network_factory.py
@@ -72,7 +72,7 @@ class PhysicalDefinitionNetworkFactory(IXMLNetworkFactory):
         elif get_str_attribute(xml_arc, "xlink:to", None) == label:
             # the node is an inner node
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0)
+            order = float(xml_arc.attrib.get("order") or 1.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
@@ -136,7 +136,7 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
         if xml_arc is None:
             # the node is not connected to any other node
             arc_role = "unknown"
-            order = 0
+            order: float = 0
             arc_qname = qname_from_str("link:unknown", xml_link)
         elif get_str_attribute(xml_arc, "xlink:from") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
@@ -144,7 +144,7 @@ class LogicalDefinitionNetworkFactory(IXMLNetworkFactory):
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         elif get_str_attribute(xml_arc, "xlink:to") == label:
             arc_role = get_str_attribute(xml_arc, "xlink:arcrole")
-            order = float(xml_arc.attrib.get("order") or 0.0).__round__()
+            order = float(xml_arc.attrib.get("order") or 1.0)
             arc_qname = qname_from_str(xml_arc.tag, xml_arc)
         else:
             raise ValueError(
-- 
2.43.0


From 56fedb257550538b8f25e589dd722b9a652551e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:58 +0000
Subject: [PATCH 15/83] fix: ignore white space around qualified names

---
 brel/qnames/qname_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/brel/qnames/qname_utils.py b/brel/qnames/qname_utils.py
index 27a2ede..8234f20 100644
--- a/brel/qnames/qname_utils.py
+++ b/brel/qnames/qname_utils.py
@@ -24,6 +24,8 @@ def qname_from_str(
     the conversion, it will be returned.
     :returns: The QName object.
     """
+    qname_str = qname_str.strip()
+
     if is_clark_notation(qname_str):
         return qname_from_clark_notation(qname_str, referencing_element)
     elif is_namespace_localname_notation(qname_str):
-- 
2.43.0


From adaf63c78e813d6b9b1766d630f1b8182d47827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:37 +0000
Subject: [PATCH 16/83] fix: keep the whole text of labels and footnotes with
 markup

---
 brel/parsers/XML/networks/xml_resource_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 2135f6f..9c163c6 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -41,7 +41,7 @@ def parse_xml_resource(
             error_repository.insert(ErrorCode.MISSING_LABEL_LANGUAGE, xml_element)
             return None
 
-        text = xml_element.text if xml_element.text else ""
+        text = "".join(xml_element.itertext())
         return BrelLabel(text, label, lang, role)
     elif "footnote" in tag:
         lang = get_elem_lang_recursive(xml_element)
@@ -52,7 +52,7 @@ def parse_xml_resource(
             )
             return None
 
-        text = xml_element.text or "".join(child.__str__() for child in xml_element)
+        text = "".join(xml_element.itertext())
         return BrelFootnote(text, label, lang, role)
     elif "reference" in tag:
         content = {
-- 
2.43.0


From dcb9dac31069f2786f1286a479434d9de0ebefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:40 +0000
Subject: [PATCH 17/83] fix: give resources without a role the standard role

---
 brel/parsers/XML/networks/xml_resource_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_resource_parser.py b/brel/parsers/XML/networks/xml_resource_parser.py
index 9c163c6..7211467 100644
--- a/brel/parsers/XML/networks/xml_resource_parser.py
+++ b/brel/parsers/XML/networks/xml_resource_parser.py
@@ -10,7 +10,7 @@
 
 import re
 from typing import Optional
-from lxml.etree import _Element  # type: ignore
+from lxml.etree import QName, _Element  # type: ignore
 
 from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
@@ -31,8 +31,10 @@ def parse_xml_resource(
         raise ValueError("The xlink:type is not resource")
 
     label = get_str_attribute(xml_element, "xlink:label")
-    role = get_str_attribute(xml_element, "xlink:role")
     tag = get_clark_notation_tag(xml_element)
+    # the role of a resource is optional
+    default_role = f"http://www.xbrl.org/2003/role/{QName(tag).localname}"
+    role = get_str_attribute(xml_element, "xlink:role", default_role)
 
     if "label" in tag:
         lang = get_elem_lang_recursive(xml_element)
-- 
2.43.0


From 1ecb7802c39984a420302c689710a7f2d241e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:43 +0000
Subject: [PATCH 18/83] fix: open reports with labels that are not connected to
 any element

---
 brel/parsers/XML/networks/xml_label_network_factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XML/networks/xml_label_network_factory.py b/brel/parsers/XML/networks/xml_label_network_factory.py
index 80f489d..166401c 100644
--- a/brel/parsers/XML/networks/xml_label_network_factory.py
+++ b/brel/parsers/XML/networks/xml_label_network_factory.py
@@ -105,7 +105,8 @@ class LabelNetworkFactory(IXMLNetworkFactory):
             if not isinstance(root, LabelNetworkNode):
                 raise TypeError("roots must all be of type LabelNetworkNode")
             if not root.points_to() == "report element":
-                raise ValueError(f"root {root} is not a report element")
+                # a label that is not connected to any report element
+                continue
 
             report_element = root.get_report_element()
             for label_node in root.get_children():
-- 
2.43.0


From 702f2a27b0a895a186be7142993751059b3dd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:28 +0000
Subject: [PATCH 19/83] fix: attach roots to networks that were merged later

---
 brel/parsers/utils/network_utils.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/brel/parsers/utils/network_utils.py b/brel/parsers/utils/network_utils.py
index d6b369d..3c5fa03 100644
--- a/brel/parsers/utils/network_utils.py
+++ b/brel/parsers/utils/network_utils.py
@@ -93,4 +93,21 @@ def combine_networks(networks: list[INetwork]) -> INetwork:
                 for child in root.get_children():
                     parent._add_child(child)
 
+    # Step 4. A root of an earlier network may occur below a root that was added later.
+    # In that case it belongs there.
+    for root in list(agg_roots):
+        own_nodes = root.get_all_descendants()
+        other_nodes = [
+            node
+            for other in agg_roots
+            if other is not root
+            for node in other.get_all_descendants()
+            if node not in own_nodes
+        ]
+        parent = next((n for n in other_nodes if nodes_equal(n, root)), None)
+        if parent is not None:
+            for child in root.get_children():
+                parent._add_child(child)
+            agg_roots.remove(root)
+
     return agg_network
-- 
2.43.0


From c463fe92a7d435b22bd26ca64e8ded8b86447c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:03 +0000
Subject: [PATCH 20/83] fix: always read local files from their own content

---
 brel/services/xml/xml_service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ae53ca7..b1a6735 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -64,13 +64,14 @@ class XMLService:
 
         parser = self.__parser_resolver.get_parser(uri)
 
-        if self.__file_service.has_file(uri):
+        if is_uri_remote and self.__file_service.has_file(uri):
             with self.__file_service.get_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         elif is_uri_remote:
             with self.__file_service.download_and_add_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         else:
+            # local files may have changed since they were last copied
             local_filepath = urllib.parse.urlparse(uri).path
             with self.__file_service.copy_and_add_file(local_filepath) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
-- 
2.43.0


From 6f85295f49f79ccf9ddcf4ab3bfdd488a8f9955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:04 +0000
Subject: [PATCH 21/83] fix: do not store different remote documents under the
 same name

---
 brel/parsers/utils/file_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/utils/file_utils.py b/brel/parsers/utils/file_utils.py
index c05b40a..0321245 100644
--- a/brel/parsers/utils/file_utils.py
+++ b/brel/parsers/utils/file_utils.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+import hashlib
 import re
 
 
@@ -29,6 +30,9 @@ def uri_to_filename(uri: str) -> str:
         else:
             return posix_uri
 
+    # different uris can become equal below
+    digest = hashlib.sha256(uri.encode("utf-8")).hexdigest()[:16]
+
     uri = uri.replace("." + file_format, "")
 
     if "http" in uri:
@@ -51,4 +55,4 @@ def uri_to_filename(uri: str) -> str:
     # replace all \ with _
     uri = uri.replace("\\", "_")
 
-    return uri + file_format
+    return uri + "_" + digest + file_format
-- 
2.43.0


From 7da0fd66410a2bbb3d997669d4923327efaa32b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:06 +0000
Subject: [PATCH 22/83] fix: extract references from the parsed document

---
 brel/data/file/pyfs_file_repository.py |  5 +--
 brel/services/xml/xml_service.py       | 52 ++++++++++++--------------
 2 files changed, 24 insertions(+), 33 deletions(-)

diff --git a/brel/data/file/pyfs_file_repository.py b/brel/data/file/pyfs_file_repository.py
index 5c40743..16f93f5 100644
--- a/brel/data/file/pyfs_file_repository.py
+++ b/brel/data/file/pyfs_file_repository.py
@@ -28,10 +28,7 @@ class PyFsFileRepository(FileRepository):
             self.fs.removetree("/")
 
     def add_file(self, uri: str, file: IO[bytes]) -> None:
-        return self.fs.writetext(
-            uri_to_filename(uri),
-            file.read().decode("utf-8"),
-        )
+        return self.fs.writebytes(uri_to_filename(uri), file.read())
 
     def get_file(self, uri: str) -> IO[bytes]:
         file_name = uri_to_filename(uri)
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index b1a6735..524522b 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,7 +8,6 @@
 ====================
 """
 
-import re
 from typing import List, Optional, Set
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
@@ -76,34 +75,29 @@ class XMLService:
             with self.__file_service.copy_and_add_file(local_filepath) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
 
-        with self.__file_service.get_file(uri) as file:
-            for reference_uri in self.__extract_references(file.read()):
-                self.add_etree_recursive(reference_uri, referencing_uri=uri)
-
-    def __extract_references(self, content: bytes) -> set[str]:
-        reference_uris: set[str] = set()
-        reference_pattern = re.compile(
-            r":href=['\"]([^'\"]+)['\"]|schemaLocation=['\"]([^'\"]+)['\"]"
-        )
-
-        for match in reference_pattern.finditer(content.decode("utf-8")):
-            href = match.group(1)
-            if href:
-                if "#" in href:
-                    href_uri, _ = href.split("#")
-                else:
-                    href_uri = href
-
-                if href_uri:
-                    reference_uris.add(href_uri)
-
-            schema_location = match.group(2)
-            if schema_location:
-                # get only last part, as there can be 2 links, only the second of which is relevant in our case.
-                schema_location = schema_location.split()[-1]
-                reference_uris.add(schema_location)
-
-        return reference_uris
+        for reference_uri in self.__extract_references(uri):
+            self.add_etree_recursive(reference_uri, referencing_uri=uri)
+
+    def __extract_references(self, uri: str) -> list[str]:
+        # a dict instead of a set, as it keeps the order of the document
+        reference_uris: dict[str, None] = {}
+
+        for element in self.__xml_repository.get_etree(uri).iter("*"):
+            for attribute, value in element.attrib.items():
+                if attribute == "{http://www.w3.org/1999/xlink}href":
+                    href_uri = value.split("#")[0].strip()
+                    if href_uri:
+                        reference_uris[href_uri] = None
+                elif attribute == "schemaLocation" and value.strip():
+                    reference_uris[value.strip()] = None
+                elif attribute == (
+                    "{http://www.w3.org/2001/XMLSchema-instance}schemaLocation"
+                ):
+                    # pairs of a namespace and the location of its schema
+                    for schema_location in value.split()[1::2]:
+                        reference_uris[schema_location] = None
+
+        return list(reference_uris)
 
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
-- 
2.43.0


From ecdadb5549c54acfdbf0ace543a336c05d50515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:31 +0000
Subject: [PATCH 23/83] fix: recognise documents that are referred to by
 different local paths

---
 brel/services/xml/xml_service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 524522b..f079281 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,6 +9,7 @@
 """
 
 from typing import List, Optional, Set
+import posixpath
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
 import urllib
@@ -56,7 +57,11 @@ class XMLService:
             uri = urllib.parse.urljoin(referencing_uri, uri)
 
         uri = self.__uri_rewrite_repository.rewrite(uri)
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        # a remote uri may be rewritten to a local file
+        is_uri_remote = uri.startswith("http")
+        if not is_uri_remote and "\\" not in uri:
+            # the same file can be referred to in different ways
+            uri = posixpath.normpath(uri)
 
         if self.__xml_repository.has_etree(uri):
             return
-- 
2.43.0


From 556415ff17fc8d48d93d90b7f21c20f19321971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:08 +0000
Subject: [PATCH 24/83] fix: read the files of archives

---
 brel/parsers/path_loaders/zip_path_loader.py | 21 ++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/path_loaders/zip_path_loader.py b/brel/parsers/path_loaders/zip_path_loader.py
index b955013..76d0b55 100644
--- a/brel/parsers/path_loaders/zip_path_loader.py
+++ b/brel/parsers/path_loaders/zip_path_loader.py
@@ -8,6 +8,12 @@
 ====================
 """
 
+import atexit
+import shutil
+import tempfile
+import zipfile
+
+from brel.parsers.path_loaders.folder_path_loader import FolderPathLoader
 from brel.parsers.path_loaders.path_loader import PathLoader
 
 
@@ -16,9 +22,16 @@ class ZipPathLoader(PathLoader):
         return path.endswith(".zip")
 
     def load(self, path: str) -> list[str]:
-        import zipfile
+        """
+        Extracts the archive and loads the extracted files.
+
+        :param path: The path of the archive.
+        :returns: A list of paths of the extracted report files.
+        """
+        directory = tempfile.mkdtemp(prefix="brel_")
+        atexit.register(shutil.rmtree, directory, ignore_errors=True)
 
         with zipfile.ZipFile(path, "r") as zip_ref:
-            file_list = zip_ref.namelist()
-            # More extensions?
-            return [file for file in file_list if file.endswith((".xml", ".xhtml"))]
+            zip_ref.extractall(directory)
+
+        return FolderPathLoader().load(directory)
-- 
2.43.0


From 8a08b04420ca8d78fad2802444f6c3c086644f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:09 +0000
Subject: [PATCH 25/83] fix: open inline reports with the extensions .htm and
 .html

---
 brel/parsers/path_loaders/file_path_loader.py   | 4 ++--
 brel/parsers/path_loaders/folder_path_loader.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/path_loaders/file_path_loader.py b/brel/parsers/path_loaders/file_path_loader.py
index 0cdba76..2b27ec6 100644
--- a/brel/parsers/path_loaders/file_path_loader.py
+++ b/brel/parsers/path_loaders/file_path_loader.py
@@ -17,12 +17,12 @@ class FilePathLoader(PathLoader):
         """
         Checks if the loader is applicable for the given path.
         This loader is applicable for any file path that is not a directory.
-        The supported file extensions are: .xml and .xhtml.
+        The supported file extensions are: .xml, .xhtml, .htm and .html.
         Weblinks are also supported.
         :param path: The file path to check.
         :returns: True if the loader can handle the path, False otherwise.
         """
-        if path.endswith((".xml", ".xhtml")):
+        if path.endswith((".xml", ".xhtml", ".htm", ".html")):
             if os.path.isfile(path):
                 return True
             if path.startswith(("http://", "https://")):
diff --git a/brel/parsers/path_loaders/folder_path_loader.py b/brel/parsers/path_loaders/folder_path_loader.py
index 2ebb8ac..7b64b3a 100644
--- a/brel/parsers/path_loaders/folder_path_loader.py
+++ b/brel/parsers/path_loaders/folder_path_loader.py
@@ -46,7 +46,7 @@ class FolderPathLoader(PathLoader):
         filtered_files = [
             file
             for file in files
-            if file.endswith((".xml", ".xhtml", ".htm", "html", ".xsd"))
+            if file.endswith((".xml", ".xhtml", ".htm", ".html", ".xsd"))
         ]
 
         folders = [
-- 
2.43.0


From 7d56d3e9e555af9ddcc12456e7f68bd19b043182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:12 +0000
Subject: [PATCH 26/83] fix: output every row in one language only

---
 brel/brel_filing.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/brel/brel_filing.py b/brel/brel_filing.py
index 65a72de..7835c40 100644
--- a/brel/brel_filing.py
+++ b/brel/brel_filing.py
@@ -516,14 +516,16 @@ class Filing:
                 d = element.convert_to_dict(languages_list, translation_service)
                 data.append(d)
         else:
+            # the first language in which everything can be expressed
             for language in output_params["languages"]:
-                for element in elements:
-                    try:
-                        d = element.convert_to_dict([language], translation_service)
-                        data.append(d)
-                    except:
-                        data = []
-                        break
+                try:
+                    data = [
+                        element.convert_to_dict([language], translation_service)
+                        for element in elements
+                    ]
+                    break
+                except Exception:
+                    continue
 
         df = pd.DataFrame(data)
         return df
-- 
2.43.0


From b2839778b19549926d97e2e889a68f2d7f1c96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:02 +0000
Subject: [PATCH 27/83] fix: resolve domain references to other schemas

---
 brel/data/xml/xml_repository.py               |  5 ++
 brel/parsers/XML/xml_report_element_parser.py |  8 ++-
 brel/services/xml/xml_service.py              | 55 +++++++++++++------
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index a65c593..64e98a2 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -33,6 +33,11 @@ class XMLRepository:
     def get_etree(self, uri: str) -> lxml.etree._ElementTree:
         return self.__xml_etree_cache[self.normalize_uri(uri)]
 
+    def get_uri(self, etree: lxml.etree._ElementTree) -> str:
+        return next(
+            uri for uri, other in self.__xml_etree_cache.items() if other is etree
+        )
+
     def get_all_etrees(self) -> list[lxml.etree._ElementTree]:
         return list(self.__xml_etree_cache.values())
 
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 703202c..6d08cde 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -91,11 +91,15 @@ def parse_report_element(
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
                 ref_schema_name, ref_id = ref_full.split("#")
                 refschema = (
-                    xml_service.get_etree(ref_schema_name)
+                    xml_service.get_referenced_etree(ref_schema_name, current_etree)
                     if ref_schema_name and ref_schema_name != "."
                     else current_etree
                 )
-                ref_xml = refschema.find(f".//*[@id='{ref_id}']")
+                ref_xml = (
+                    refschema.find(f".//*[@id='{ref_id}']")
+                    if refschema is not None
+                    else None
+                )
                 if ref_xml is None:
                     error_repository.insert(
                         ErrorCode.REFERENCED_SCHEMA_ELEMENT_NOT_FOUND,
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index f079281..ddc8c27 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -44,24 +44,8 @@ class XMLService:
         :param referencing_uri: The URI of the file that references this XML file.
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
-        if not is_uri_remote:
-            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
-            uri_splitting_char = "\\" if "\\" in uri else "/"
-
-            uri = uri_splitting_char.join(
-                referencing_uri.split(referencing_splitting_char)[:-1]
-                + uri.split(uri_splitting_char)
-            )
-        else:
-            uri = urllib.parse.urljoin(referencing_uri, uri)
-
-        uri = self.__uri_rewrite_repository.rewrite(uri)
-        # a remote uri may be rewritten to a local file
+        uri = self.__resolve_uri(uri, referencing_uri)
         is_uri_remote = uri.startswith("http")
-        if not is_uri_remote and "\\" not in uri:
-            # the same file can be referred to in different ways
-            uri = posixpath.normpath(uri)
 
         if self.__xml_repository.has_etree(uri):
             return
@@ -83,6 +67,27 @@ class XMLService:
         for reference_uri in self.__extract_references(uri):
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
+    def __resolve_uri(self, uri: str, referencing_uri: str) -> str:
+        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        if not is_uri_remote:
+            referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
+            uri_splitting_char = "\\" if "\\" in uri else "/"
+
+            uri = uri_splitting_char.join(
+                referencing_uri.split(referencing_splitting_char)[:-1]
+                + uri.split(uri_splitting_char)
+            )
+        else:
+            uri = urllib.parse.urljoin(referencing_uri, uri)
+
+        uri = self.__uri_rewrite_repository.rewrite(uri)
+        # a remote uri may be rewritten to a local file
+        if not uri.startswith("http") and "\\" not in uri:
+            # the same file can be referred to in different ways
+            uri = posixpath.normpath(uri)
+
+        return uri
+
     def __extract_references(self, uri: str) -> list[str]:
         # a dict instead of a set, as it keeps the order of the document
         reference_uris: dict[str, None] = {}
@@ -107,6 +112,22 @@ class XMLService:
     def get_etree(self, uri: str) -> _ElementTree:
         return self.__xml_repository.get_etree(uri)
 
+    def get_referenced_etree(
+        self, uri: str, referencing_etree: _ElementTree
+    ) -> Optional[_ElementTree]:
+        """
+        :param uri: The URI of a document, as it is written in the referencing document
+        :param referencing_etree: The document that contains the reference
+        :returns: The referenced document or None if there is no such document
+        """
+        referencing_uri = self.__xml_repository.get_uri(referencing_etree)
+        resolved_uri = self.__resolve_uri(uri, referencing_uri)
+
+        if not self.__xml_repository.has_etree(resolved_uri):
+            return None
+
+        return self.__xml_repository.get_etree(resolved_uri)
+
     def get_all_etrees(self) -> list[_ElementTree]:
         return self.__xml_repository.get_all_etrees()
 
-- 
2.43.0


From 39df00f0c4fe9368cd028bfa756bb8e12e406f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:05 +0000
Subject: [PATCH 28/83] fix: open reports with malformed or anonymous typed
 domains

---
 brel/parsers/XML/xml_report_element_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 6d08cde..6c91578 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -89,7 +89,7 @@ def parse_report_element(
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
                 ref_full = get_str_attribute(report_element_xml, typed_domain_ref)
-                ref_schema_name, ref_id = ref_full.split("#")
+                ref_schema_name, _, ref_id = ref_full.partition("#")
                 refschema = (
                     xml_service.get_referenced_etree(ref_schema_name, current_etree)
                     if ref_schema_name and ref_schema_name != "."
@@ -108,6 +108,9 @@ def parse_report_element(
                         ref_schema_name=ref_schema_name,
                     )
                     return
-                ref_type = get_str_attribute(ref_xml, "type")
+                # elements with an anonymous type have no type attribute
+                ref_type = get_str_attribute(
+                    ref_xml, "type", "{http://www.w3.org/2001/XMLSchema}anyType"
+                )
                 ref_type_qname = qname_from_str(ref_type, ref_xml)
                 report_element.make_typed(ref_type_qname)
-- 
2.43.0


From 83daaad4010113a7ef9ee0fddcdac1be5a9d55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:31 +0000
Subject: [PATCH 29/83] fix: do not mistake clark notation for a prefixed name

---
 brel/qnames/qname_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/qnames/qname_utils.py b/brel/qnames/qname_utils.py
index 8234f20..3ea0304 100644
--- a/brel/qnames/qname_utils.py
+++ b/brel/qnames/qname_utils.py
@@ -91,7 +91,7 @@ def is_namespace_localname_notation(namespace_localname_str: str) -> bool:
     :param namespace_localname_str: The string to check.
     :returns: True if the string is in namespace:local_name format, False otherwise.
     """
-    expression = r"^([^\:]+)\:([^\:]+)$"
+    expression = r"^([^\:\{]+)\:([^\:]+)$"
     match = re.match(expression, namespace_localname_str)
     return match is not None
 
-- 
2.43.0


From 339a284657b8dd1c037718c7886c7238e87e5c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:33 +0000
Subject: [PATCH 30/83] fix: recognise inline elements regardless of their
 prefix

---
 brel/parsers/XHMTL/xhtml_parse_facts.py |  9 ++++++---
 brel/parsers/utils/lxml_utils.py        | 20 ++++++++++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 60de3c1..f73d679 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -142,9 +142,12 @@ def parse_instance_elements(
 ) -> Tuple[List[_Element], List[_Element], List[_Element]]:
     fact_elements, footnote_elements, continuation_elements = [], [], []
     for xbrl_instance in etrees:
-        facts = find_elements(xbrl_instance, ".//ix:nonNumeric | .//ix:nonFraction")
-        footnotes = find_elements(xbrl_instance, ".//ix:footnote")
-        continuations = find_elements(xbrl_instance, ".//ix:continuation")
+        namespaces = {"ix": "http://www.xbrl.org/2013/inlineXBRL"}
+        facts = find_elements(
+            xbrl_instance, ".//ix:nonNumeric | .//ix:nonFraction", namespaces
+        )
+        footnotes = find_elements(xbrl_instance, ".//ix:footnote", namespaces)
+        continuations = find_elements(xbrl_instance, ".//ix:continuation", namespaces)
 
         fact_elements += facts
         footnote_elements += footnotes
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 06a04dd..5d0d8a8 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -20,6 +20,12 @@ from brel.qnames.qname_utils import (
     qname_from_str,
 )
 
+STANDARD_PREFIXES = {
+    "http://www.xbrl.org/2013/inlineXBRL": "ix",
+    "http://www.xbrl.org/2003/instance": "xbrli",
+    "http://www.xbrl.org/2003/linkbase": "link",
+}
+
 
 def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     """
@@ -90,11 +96,21 @@ def get_clark_notation_tag(element: _Element) -> str:  # type: ignore
 def get_prefix_localname_tag(element: _Element) -> str:
     """
     Helper function for getting the tag of an element as a string in prefix:localname notation.
-    Uses the namespaces available in the passed element.
+    Uses the namespaces available in the passed element, except for the namespaces of XBRL itself, for which the
+    usual prefix is returned regardless of the prefix in the document.
     :param element: lxml.etree.Element to get the tag from
     :returns: str containing the tag of the element
     """
-    return qname_from_str(element.tag, element).prefix_local_name_notation()
+    if not isinstance(element.tag, str):
+        # comments and processing instructions have no name
+        return ""
+
+    tag = qname_from_str(element.tag, element)
+    prefix = STANDARD_PREFIXES.get(tag.get_URL())
+    if prefix is not None:
+        return f"{prefix}:{tag.get_local_name()}"
+
+    return tag.prefix_local_name_notation()
 
 
 def find_elements(
-- 
2.43.0


From d47573de84df828a127b35b85701aeca9d7ec2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:35 +0000
Subject: [PATCH 31/83] fix: ignore comments and processing instructions in
 inline documents

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 3 ++-
 brel/parsers/XHMTL/elements/parse_header.py             | 2 +-
 brel/parsers/XHMTL/elements/parse_hidden.py             | 2 +-
 brel/parsers/XHMTL/elements/parse_references.py         | 2 +-
 brel/parsers/XHMTL/elements/parse_resources.py          | 2 +-
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 20504bc..4a1fe53 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -144,7 +144,8 @@ def extract_relevant_content_per_element(element: _Element) -> _Element:
     for child in element:
         child_tag = get_prefix_localname_tag(child)
 
-        if child_tag == "ix:exclude":
+        # comments and processing instructions are not part of the content
+        if child_tag == "ix:exclude" or not isinstance(child.tag, str):
             append_text_to_parent(relevant_element, child.tail)
             continue
 
diff --git a/brel/parsers/XHMTL/elements/parse_header.py b/brel/parsers/XHMTL/elements/parse_header.py
index e533c22..faf84f4 100644
--- a/brel/parsers/XHMTL/elements/parse_header.py
+++ b/brel/parsers/XHMTL/elements/parse_header.py
@@ -26,7 +26,7 @@ def parse_header(
 ) -> Tuple[List[_Element], List[_Element], List[_Element]]:
     hidden_elements, resources_elements, references_elements = [], [], []
 
-    for child in header_element:
+    for child in header_element.iterchildren("*"):
         tag = get_prefix_localname_tag(child)
         if tag == "ix:hidden":
             hidden_elements.append(child)
diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index 4b80f2a..70ecfb1 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -11,7 +11,7 @@ def validate_hidden_elements(
 ) -> None:
     error_repository = filing_context.get_error_repository()
     for element in hidden_elements:
-        for child in element:
+        for child in element.iterchildren("*"):
             child_tag = get_prefix_localname_tag(child)
 
             if child_tag in ["ix:footnote", "ix:nonFraction", "ix:nonNumeric"]:
diff --git a/brel/parsers/XHMTL/elements/parse_references.py b/brel/parsers/XHMTL/elements/parse_references.py
index 010f98f..80b2918 100644
--- a/brel/parsers/XHMTL/elements/parse_references.py
+++ b/brel/parsers/XHMTL/elements/parse_references.py
@@ -30,7 +30,7 @@ def parse_references_elements(
                 ErrorCode.IXBRL_REFERENCES_ELEMENT_WITHOUT_CHILDREN, element
             )
 
-        for child in element:
+        for child in element.iterchildren("*"):
             child_tag = get_prefix_localname_tag(child)
 
             if child_tag not in ["link:schemaRef", "link:linkbaseRef"]:
diff --git a/brel/parsers/XHMTL/elements/parse_resources.py b/brel/parsers/XHMTL/elements/parse_resources.py
index e019ce3..13ca393 100644
--- a/brel/parsers/XHMTL/elements/parse_resources.py
+++ b/brel/parsers/XHMTL/elements/parse_resources.py
@@ -17,7 +17,7 @@ def parse_resources_elements(elements: List[_Element], context: FilingContext):
     ) = ([], [], [], [], [])
 
     for element in elements:
-        for child in element:
+        for child in element.iterchildren("*"):
             child_tag = get_prefix_localname_tag(child)
             if child_tag == "ix:relationship":
                 relationship_elements.append(child)
-- 
2.43.0


From f660bd582c665fa32a2dca1173451fdd19a287f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:38 +0000
Subject: [PATCH 32/83] fix: do not report inline facts whose unit does not
 exist

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index f73d679..785c413 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -216,6 +216,7 @@ def parse_facts(
                     unit_id=unit_id,
                     fact_id=str(fact_id),
                 )
+                continue
         elif not unit_id and element_tag == "ix:nonFraction":
             error_repository.insert(
                 ErrorCode.IXBRL_NON_FRACTION_WITHOUT_UNIT,
-- 
2.43.0


From 5b6cc198ba1910c4628520919220145963dab277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:40 +0000
Subject: [PATCH 33/83] fix: open inline reports that have contexts or units
 without id

---
 brel/parsers/XHMTL/xhtml_parse_facts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_facts.py b/brel/parsers/XHMTL/xhtml_parse_facts.py
index 785c413..82015ff 100644
--- a/brel/parsers/XHMTL/xhtml_parse_facts.py
+++ b/brel/parsers/XHMTL/xhtml_parse_facts.py
@@ -92,7 +92,7 @@ def parse_contexts(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_CONTEXT_WITHOUT_ID, context_element)
-            id = str(id)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
@@ -122,6 +122,7 @@ def parse_units(
 
         if id is None:
             error_repository.insert(ErrorCode.IXBRL_UNIT_WITHOUT_ID, unit_element)
+            continue
 
         if id in taken_ids:
             error_repository.insert(
-- 
2.43.0


From 65f781857720c8ed1b95b3e0cc655717e4ef21e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:13 +0000
Subject: [PATCH 34/83] fix: recognise nil inline numbers regardless of the
 prefix

---
 .../XHMTL/elements/parse_non_fraction.py      | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 219ea8f..66d6012 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -36,6 +36,13 @@ def parse_decimals_or_precision(
     return value
 
 
+XSI_NIL = "{http://www.w3.org/2001/XMLSchema-instance}nil"
+
+
+def is_nil(element: _Element) -> bool:
+    return (element.get(XSI_NIL) or "").strip() in ["true", "1"]
+
+
 def validate_descendant_non_fraction_rules(
     element: _Element, error_repository: ErrorRepository
 ) -> None:
@@ -50,8 +57,7 @@ def validate_descendant_non_fraction_rules(
     if not parent_is_non_fraction:
         return
 
-    xsi_nil = get_str_attribute_optional(element, "xsi:nil")
-    if xsi_nil == "true":
+    if is_nil(element):
         error_repository.insert(
             ErrorCode.IXBRL_NIL_ATTRIBUTE_IN_NON_FRACTION_CHILD, element
         )
@@ -176,7 +182,8 @@ def parse_non_fraction_fact_element(
             fact_element,
             precision=precision_str,
         )
-    xsi_nil = get_str_attribute_optional(fact_element, "xsi:nil")
+    xsi_nil = fact_element.get(XSI_NIL)
+    nil = is_nil(fact_element)
 
     if (
         decimals != None
@@ -203,22 +210,22 @@ def parse_non_fraction_fact_element(
             ErrorCode.IXBRL_BOTH_TEXT_AND_CHILDREN_IN_NON_FRACTION, fact_element
         )
 
-    if xsi_nil == "true" and (has_text or has_children):
+    if nil and (has_text or has_children):
         error_repository.insert(ErrorCode.IXBRL_TEXT_OR_CHILDREN_WITH_NIL, fact_element)
 
-    if (not xsi_nil or xsi_nil == "false") and not has_text and not has_children:
+    if not nil and not has_text and not has_children:
         error_repository.insert(
             ErrorCode.IXBRL_NO_TEXT_OR_CHILDREN_WITH_ABSENT_NIL_ATTRIBUTE,
             fact_element,
         )
 
-        # Assume xsi_nil, since fact is missing.
-        xsi_nil = "true"
+        # Assume nil, since fact is missing.
+        nil = True
 
     validate_descendant_non_fraction_rules(fact_element, error_repository)
 
     fact_value = fact_element.text or ""
-    if xsi_nil == "true":
+    if nil:
         fact_value = ""
     elif has_text:
         fact_value = process_non_fraction_value(fact_element, error_repository)
-- 
2.43.0


From 9691b2ae6b2aed47d9191a433a3877b4dc614b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:31 +0000
Subject: [PATCH 35/83] fix: read nested inline numbers and numbers with
 comments

---
 .../XHMTL/elements/parse_non_fraction.py      | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_fraction.py b/brel/parsers/XHMTL/elements/parse_non_fraction.py
index 66d6012..e212547 100644
--- a/brel/parsers/XHMTL/elements/parse_non_fraction.py
+++ b/brel/parsers/XHMTL/elements/parse_non_fraction.py
@@ -88,7 +88,7 @@ def validate_descendant_non_fraction_rules(
 
 
 def process_non_fraction_value(
-    fact_element: _Element, error_repository: ErrorRepository
+    fact_element: _Element, fact_value: str, error_repository: ErrorRepository
 ) -> str:
     format = get_str_attribute_optional(fact_element, "format")
     scale = get_str_attribute_optional(fact_element, "scale")
@@ -101,11 +101,6 @@ def process_non_fraction_value(
 
         sign = None  # Ignore sign
 
-    fact_value = fact_element.text
-
-    if not fact_value:
-        fact_value = ""
-
     if not format:
         value = None
         try:
@@ -199,11 +194,12 @@ def parse_non_fraction_fact_element(
             id=id,
         )
 
-    element_text = fact_element.text
-    element_children = [child for child in fact_element]
+    # Comments and processing instructions are not part of the content
+    element_text = "".join(fact_element.xpath("text()"))
+    element_children = list(fact_element.iterchildren("*"))
 
-    has_text = element_text != None or any([child.tail for child in element_children])
     has_children = len(element_children) > 0
+    has_text = bool(element_text.strip() if has_children else element_text)
 
     if has_text and has_children:
         error_repository.insert(
@@ -224,11 +220,13 @@ def parse_non_fraction_fact_element(
 
     validate_descendant_non_fraction_rules(fact_element, error_repository)
 
-    fact_value = fact_element.text or ""
+    fact_value = ""
     if nil:
         fact_value = ""
     elif has_text:
-        fact_value = process_non_fraction_value(fact_element, error_repository)
+        fact_value = process_non_fraction_value(
+            fact_element, element_text, error_repository
+        )
     else:
         if len(element_children) > 1:
             error_repository.insert(
@@ -243,7 +241,10 @@ def parse_non_fraction_fact_element(
                 child_tag=child_tag,
             )
 
-        # Input whole element as fact value
-        fact_value = etree.tostring(element_children[0]).decode()
+        # The number is written inside the nested element
+        nested_text = "".join(element_children[0].itertext(etree.Element))
+        fact_value = process_non_fraction_value(
+            fact_element, nested_text, error_repository
+        )
 
     return Fact(context, fact_value, id, decimals, precision)
-- 
2.43.0


From 6cb6d78f5181a9a1fc0e1844aaab944b3a7fffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:29 +0000
Subject: [PATCH 36/83] fix: do not lose the digits of inline zeros

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c268cd7..d7e2f60 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -994,7 +994,7 @@ def normalize_numerical_fact_value(fact_value: str) -> str:
     fact_value = fact_value.lstrip("0")
 
     # Add leading zero if necessary
-    if fact_value.startswith("."):
+    if not fact_value or fact_value.startswith("."):
         fact_value = "0" + fact_value
 
     return fact_value
-- 
2.43.0


From d2e9ea0faeaf1cb81b304759fe1b9021c5e5fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:32 +0000
Subject: [PATCH 37/83] fix: support the older names of the zero format

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index d7e2f60..b3c03d4 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1019,11 +1019,11 @@ def parse_numerical_fact_value(
     :param fact_scale: The scale to apply to the numerical value, represented as a power of 10.
     :return: The parsed and scaled numerical value as a string.
     """
+    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
+
     if fact_format == "ixt:fixed-zero":
         return "0"
 
-    fact_format = legacy_to_current_formats.get(fact_format, fact_format)
-
     fact_value = fact_value.strip()
     match = match_regex_numerical_fact_value(
         fact_value, fact_format, element, error_repository
-- 
2.43.0


From c401970c575120401c24ff905e125c88978cbd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:34 +0000
Subject: [PATCH 38/83] fix: read single digit subunits as hundredths

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index b3c03d4..590ff2c 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -959,6 +959,7 @@ def process_number_part(number_part: str) -> str:
 
 def process_numerical_fact_value(
     match: re.Match,
+    fact_format: str,
     fact_scale: str,
     element: _Element,
     error_repository: ErrorRepository,
@@ -967,6 +968,10 @@ def process_numerical_fact_value(
     whole_part = process_number_part(match.group(1))
     decimal_part = process_number_part(match.group(2))
 
+    # The subunits are hundredths
+    if "num-unit-decimal" in fact_format:
+        decimal_part = decimal_part.rjust(2, "0")
+
     # Parse the scale
     scale = 0
     try:
@@ -1033,7 +1038,7 @@ def parse_numerical_fact_value(
         return fact_value
 
     fact_value = process_numerical_fact_value(
-        match, fact_scale, element, error_repository
+        match, fact_format, fact_scale, element, error_repository
     )
     fact_value = normalize_numerical_fact_value(fact_value)
 
-- 
2.43.0


From 795e43756f51c35e0cfc916ac6f38139270d584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:37 +0000
Subject: [PATCH 39/83] fix: accept no-break spaces between digits

---
 .../XHMTL/xhtml_parse_transformation_registry.py       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 590ff2c..1bf754c 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -9,11 +9,11 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 number_format_to_regex = {
-    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal-apos": r"^([,\'`´’′  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal-apos": r"^([\.\'`´’′ \u00a00-9]*)(,[ \u00a00-9]+)?$",
+    "ixt:num-dot-decimal-apos": r"^([,\'`´’′ \u00a00-9]*)(\.[ \u00a00-9]+)?$",
     "ixt:num-unit-decimal-apos": r"^([0-9０-９\.,，\'`´’′＇]+)[^0-9０-９\.,，\'`´’′＇][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
-    "ixt:num-comma-decimal": r"^([\.  0-9]*)(,[  0-9]+)?$",
-    "ixt:num-dot-decimal": r"^([,  0-9]*)(\.[  0-9]+)?$",
+    "ixt:num-comma-decimal": r"^([\. \u00a00-9]*)(,[ \u00a00-9]+)?$",
+    "ixt:num-dot-decimal": r"^([, \u00a00-9]*)(\.[ \u00a00-9]+)?$",
     "ixt:num-unit-decimal": r"^([0-9０-９\.,，]+)[^0-9０-９\.,，][^0-9０-９]*([0-9０-９]{1,2})[^0-9０-９]*$",
 }
 
@@ -947,7 +947,7 @@ def apply_scale(whole_part: str, decimal_part: str, scale: int) -> tuple[str, st
 
 
 def process_number_part(number_part: str) -> str:
-    separators = " .,，'`´’′＇"
+    separators = " \u00a0.,，'`´’′＇"
 
     if not number_part:
         number_part = "0"
-- 
2.43.0


From 231907a45c1a12d4f778e36accbd73d44c70bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:39 +0000
Subject: [PATCH 40/83] fix: diagnose numbers without digits

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 1bf754c..f6f91ef 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -916,7 +916,7 @@ def match_regex_numerical_fact_value(
         return None
 
     match = re.match(number_format_regex, fact_value)
-    if not match:
+    if not match or not re.search(r"[0-9０-９]", fact_value):
         error_repository.insert(
             ErrorCode.NUMBER_DOES_NOT_MATCH_EXPECTED_FORMAT,
             element,
-- 
2.43.0


From 6477cb1ca5aea6a4a9b0c714df1eea2e093b46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:10 +0000
Subject: [PATCH 41/83] fix: recognise the month names of the date formats and
 map them to the right month

---
 .../xhtml_parse_transformation_registry.py    | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index f6f91ef..5f6b81e 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -19,7 +19,7 @@ number_format_to_regex = {
 
 date_format_to_regex = {
     "ixt:date-day-monthname-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]{0,7}$",
-    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fedi|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-cy": r"^(ion|chwe|maw|faw|ebr|mai|fai|meh|feh|gor|ngor|aws|med|fed|hyd|tach|dach|nhach|thach|rhag|rag|ION|CHWE|MAW|FAW|EBR|MAI|FAI|MEH|FEH|GOR|NGOR|AWS|MED|FED|HYD|TACH|DACH|NHACH|THACH|RHAG|RAG|Ion|Chwe|Maw|Faw|Ebr|Mai|Fai|Meh|Feh|Gor|Ngor|Aws|Med|Fed|Hyd|Tach|Dach|Nhach|Thach|Rhag|Rag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-year-cy": r"^([0-9]{1,2})[^0-9]*[^0-9a-zA-Z]+(ion|chwe|maw|ebr|mai|meh|gor|aws|med|hyd|tach|rhag|ION|CHWE|MAW|EBR|MAI|MEH|GOR|AWS|MED|HYD|TACH|RHAG|Ion|Chwe|Maw|Ebr|Mai|Meh|Gor|Aws|Med|Hyd|Tach|Rhag)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-month": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
     "ixt:date-month-day": r"^([0-9]{1,2})[^0-9]+([0-9]{1,2})$",
@@ -37,9 +37,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-da": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-da": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthname-year-de": r"^(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-de": r"^([0-9]{1,2})[^0-9]+(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthname-year-de": r"^(jan|jän|jaen|feb|mär|maer|mar|apr|mai|jun|jul|aug|sep|okt|nov|dez|JAN|JÄN|JAEN|FEB|MÄR|MAER|MAR|APR|MAI|JUN|JUL|AUG|SEP|OKT|NOV|DEZ|Jan|Jän|Jaen|Feb|Mär|Maer|Mar|Apr|Mai|Jun|Jul|Aug|Sep|Okt|Nov|Dez)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΥΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]{0,8}$",
     "ixt:date-day-monthname-year-el": r"^([0-9]{1,2})[^0-9]+(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-el": r"^(ιαν|ίαν|φεβ|μάρ|μαρ|απρ|άπρ|αρίλ|άρίλ|αριλ|άριλ|μαΐ|μαι|μάι|μαϊ|μάϊ|ιούν|ίούν|ίουν|ιουν|ιούλ|ίούλ|ίουλ|ίουλ|ιουλ|αύγ|αυγ|σεπ|οκτ|όκτ|νοέ|νοε|δεκ|ΙΑΝ|ΊΑΝ|IΑΝ|ΦΕΒ|ΜΆΡ|ΜΑΡ|ΑΠΡ|ΆΠΡ|AΠΡ|AΡΙΛ|ΆΡΙΛ|ΑΡΙΛ|ΜΑΪ́|ΜΑΙ|ΜΆΙ|ΜΑΪ|ΜΆΪ|ΙΟΎΝ|ΊΟΎΝ|ΊΟΥΝ|IΟΎΝ|ΙΟΥΝ|IΟΥΝ|ΙΟΎΛ|ΊΟΎΛ|ΊΟΥΛ|IΟΎΛ|ΙΟΥΛ|IΟΥΛ|ΑΎΓ|ΑΥΓ|ΣΕΠ|ΟΚΤ|ΌΚΤ|OΚΤ|ΝΟΈ|ΝΟΕ|ΔΕΚ|Ιαν|Ίαν|Iαν|Φεβ|Μάρ|Μαρ|Απρ|Άπρ|Aπρ|Αρίλ|Άρίλ|Aρίλ|Aριλ|Άριλ|Αριλ|Μαΐ|Μαι|Μάι|Μαϊ|Μάϊ|Ιούν|Ίούν|Ίουν|Iούν|Ιουν|Iουν|Ιούλ|Ίούλ|Ίουλ|Iούλ|Ιουλ|Iουλ|Αύγ|Αυγ|Σεπ|Οκτ|Όκτ|Oκτ|Νοέ|Νοε|Δεκ)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
@@ -97,8 +97,8 @@ date_format_to_regex = {
     "ixt:date-day-monthname-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sk": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sk": r"^(jan|feb|mar|apr|máj|maj|jún|jun|júl|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MÁJ|MAJ|JÚN|JUN|JÚL|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Máj|Maj|Jún|Jun|Júl|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthname-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
-    "ixt:date-day-monthname-year-sl": r"^[0-9]{1,2}[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthname-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
+    "ixt:date-day-monthname-year-sl": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-sl": r"^(jan|feb|mar|apr|maj|jun|jul|avg|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AVG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Avg|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-sv": r"^([0-9]{1,2})[^0-9]+(jan|feb|mar|apr|maj|jun|jul|aug|sep|okt|nov|dec|JAN|FEB|MAR|APR|MAJ|JUN|JUL|AUG|SEP|OKT|NOV|DEC|Jan|Feb|Mar|Apr|Maj|Jun|Jul|Aug|Sep|Okt|Nov|Dec)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
@@ -206,16 +206,16 @@ country_to_month_names = {
     "cy": [
         ["ion"],
         ["chwe"],
-        ["maw"],
+        ["maw", "faw"],
         ["ebr"],
-        ["mai"],
-        ["meh"],
-        ["gor"],
+        ["mai", "fai"],
+        ["meh", "feh"],
+        ["gor", "ngor"],
         ["aws"],
-        ["med"],
+        ["med", "fed"],
         ["hyd"],
-        ["tach"],
-        ["rhag"],
+        ["tach", "dach", "nhach", "thach"],
+        ["rhag", "rag"],
     ],
     "da": [
         ["jan"],
@@ -246,16 +246,16 @@ country_to_month_names = {
         ["dez"],
     ],
     "el": [
-        ["ιαν", "ίαν"],
+        ["ιαν", "ίαν", "iαν"],
         ["φεβ"],
         ["μάρ", "μαρ"],
-        ["απρ", "άπρ", "αρίλ", "άρίλ", "αριλ", "άριλ"],
-        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ"],
-        ["ιούν", "ίούν", "ίουν", "ιουν"],
-        ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ"],
+        ["απρ", "άπρ", "αρίλ", "άρίλ", "αριλ", "άριλ", "aπρ", "aριλ", "aρίλ"],
+        ["μαΐ", "μαι", "μάι", "μαϊ", "μάϊ", "μαΐ"],
+        ["ιούν", "ίούν", "ίουν", "ιουν", "iουν", "iούν"],
+        ["ιούλ", "ίούλ", "ίουλ", "ίουλ", "ιουλ", "iούλ", "iουλ"],
         ["αύγ", "αυγ"],
         ["σεπ"],
-        ["οκτ", "όκτ"],
+        ["οκτ", "όκτ", "oκτ"],
         ["νοέ", "νοε"],
         ["δεκ"],
     ],
@@ -374,8 +374,7 @@ country_to_month_names = {
     "nl": [
         ["jan"],
         ["feb"],
-        ["maa"],
-        ["mrt"],
+        ["maa", "mrt"],
         ["apr"],
         ["mei"],
         ["jun"],
@@ -408,7 +407,8 @@ country_to_month_names = {
         ["geg"],
         ["bir"],
         ["lie"],
-        ["rugp", "rgp", "rugs", "rgs"],
+        ["rugp", "rgp"],
+        ["rugs", "rgs"],
         ["spa", "spl"],
         ["lap"],
         ["gru", "grd"],
-- 
2.43.0


From 62a6d1b97b2595d46cb2d4778b82ee96ee47637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:12 +0000
Subject: [PATCH 42/83] fix: read the year of dates with roman months

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 5f6b81e..34836db 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -64,9 +64,9 @@ date_format_to_regex = {
     "ixt:date-day-monthname-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-hr": r"^([0-9]{1,2})[^0-9]+(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-hr": r"^(sij|velj|ožu|ozu|tra|svi|lip|srp|kol|ruj|lis|stu|pro|SIJ|VELJ|OŽU|OZU|TRA|SVI|LIP|SRP|KOL|RUJ|LIS|STU|PRO|Sij|Velj|Ožu|Ozu|Tra|Svi|Lip|Srp|Kol|Ruj|Lis|Stu|Pro)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))$",
-    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi]((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
-    "ixt:date-monthroman-year": r"^((I?(X|V|I)I{0,3})|(i?(x|v|i)i{0,3}))[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-day-monthroman": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})$",
+    "ixt:date-day-monthroman-year": r"^([0-9]{1,2})[^0-9]*[^XVIxvi](I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
+    "ixt:date-monthroman-year": r"^(I?(?:X|V|I)I{0,3}|i?(?:x|v|i)i{0,3})[^XVIxvi][^0-9]*([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-day-monthname-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]{0,6}$",
     "ixt:date-day-monthname-year-it": r"^([0-9]{1,2})[^0-9]+(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
     "ixt:date-monthname-year-it": r"^(gen|feb|mar|apr|mag|giu|lug|ago|set|ott|nov|dic|GEN|FEB|MAR|APR|MAG|GIU|LUG|AGO|SET|OTT|NOV|DIC|Gen|Feb|Mar|Apr|Mag|Giu|Lug|Ago|Set|Ott|Nov|Dic)[^0-9]+([0-9]{1,2}|[0-9]{4})$",
-- 
2.43.0


From 0ce6af8906d5e21eb6362f451a09da11185a4e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:15 +0000
Subject: [PATCH 43/83] fix: read the month before the day in the US format

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 34836db..69599ec 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -591,7 +591,7 @@ legacy_to_current_formats = {
     "ixt:datelongdaymonthuk": "ixt:date-day-monthname-en",
     "ixt:datelongmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateshortdaymonthuk": "ixt:date-day-monthname-en",
-    "ixt:dateshortmonthdayus": "ixt:date-day-monthname-en",
+    "ixt:dateshortmonthdayus": "ixt:date-monthname-day-en",
     "ixt:dateslashdaymontheu": "ixt:date-day-month",
     "ixt:dateslashmonthdayus": "ixt:date-month-day",
     "ixt:datelongyearmonth": "ixt:date-year-monthname-en",
-- 
2.43.0


From 96f927eceaecc6aaffbed8a6d46e9b6ce188ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:18 +0000
Subject: [PATCH 44/83] fix: diagnose dates with months and days that do not
 exist

---
 brel/parsers/XHMTL/xhtml_parse_transformation_registry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 69599ec..b8bd499 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -791,7 +791,7 @@ def validate_date_fact_value(
             ErrorCode.DAY_NOT_PRESENT_IN_FULL_DATE, element, date=fact_value
         )
 
-    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts['month']}-{date_parts['day'] if is_full_date else '01'}"
+    iso8601_formatted_string = f"{date_parts['year'] if not is_recurring else '2020'}-{date_parts.get('month')}-{date_parts.get('day') if is_full_date or is_recurring else '01'}"
 
     try:
         datetime.date.fromisoformat(iso8601_formatted_string)
@@ -839,6 +839,10 @@ def parse_date_fact_value(
         error_repository=error_repository,
     )
 
+    # No month of that name or number
+    if "month" not in date_parts:
+        return fact_value
+
     if is_full_date:
         return f"{date_parts['year']}-{date_parts['month']}-{date_parts['day']}"
     elif is_recurring:
-- 
2.43.0


From 4217b402d2dced8f03befdca581c4c76ae920645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:04 +0000
Subject: [PATCH 45/83] fix: diagnose dates outside of their Japanese era

---
 .../xhtml_parse_transformation_registry.py    | 38 ++++++++-----------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index b8bd499..7051ff0 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -697,6 +697,8 @@ def normalize_date_parts(
 
     normalized_date_parts = {}
 
+    if "era" in date_parts:
+        normalized_date_parts["era"] = date_parts["era"]
     if "day" in date_parts:
         normalized_date_parts["day"] = "{:02n}".format(int(date_parts["day"]))
     if "month" in date_parts:
@@ -732,32 +734,22 @@ def check_japanese_imperial_date_valid(date_parts: dict[str, str]) -> bool:
     era_start_date = japanese_era_to_gregorian_period[date_parts["era"]][0]
     era_end_date = japanese_era_to_gregorian_period[date_parts["era"]][1]
 
-    if "day" in date_parts:
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{date_parts["day"]}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
-
-        if given_date < era_start_date or given_date > era_end_date:
-            return False
-    else:
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_start_date.day}'
-        )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
+    year, month = int(date_parts["year"]), int(date_parts["month"])
 
-        if given_date < era_start_date:
-            return False
+    if "day" in date_parts:
+        given_date = (year, month, int(date_parts["day"]))
 
-        iso8601_formatted_string = (
-            f'{date_parts["year"]}-{date_parts["month"]}-{era_end_date.day}'
+        return (
+            (era_start_date.year, era_start_date.month, era_start_date.day)
+            <= given_date
+            <= (era_end_date.year, era_end_date.month, era_end_date.day)
         )
-        given_date = datetime.date.fromisoformat(iso8601_formatted_string)
-
-        if given_date > era_end_date:
-            return False
 
-    return True
+    return (
+        (era_start_date.year, era_start_date.month)
+        <= (year, month)
+        <= (era_end_date.year, era_end_date.month)
+    )
 
 
 def validate_date_fact_value(
@@ -800,7 +792,7 @@ def validate_date_fact_value(
             ErrorCode.INVALID_GREGORIAN_DATE, element, date=fact_value
         )
 
-    if "era" in date_parts:
+    if "era" in date_parts and "month" in date_parts:
         if not check_japanese_imperial_date_valid(date_parts):
             error_repository.insert(
                 ErrorCode.INVALID_JAPANESE_IMPERIAL_DATE, element, date=fact_value
-- 
2.43.0


From bcea4ee221110bd6654dc8e4d710a95e0b62809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:06 +0000
Subject: [PATCH 46/83] fix: read Hindi month names in the older format for
 Indian dates

---
 .../XHMTL/xhtml_parse_transformation_registry.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index 7051ff0..c7ab6a0 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -1064,15 +1064,18 @@ def parse_non_numerical_fact_value(
     if fact_format.startswith("ixt:date"):
         # Special handling of legacy format
         if fact_format == "ixt:datedaymonthyearin":
-            fact_value_option_1 = parse_date_fact_value(
-                fact_value, "ixt:date-day-month-year", element, error_repository
+            numeric_format = "ixt:date-day-month-year"
+            name_format = "ixt:date-day-monthname-year-hi"
+            is_numeric = re.search(
+                date_format_to_regex[numeric_format], fact_value.strip()
             )
 
-            fact_value_option_2 = parse_date_fact_value(
-                fact_value, "ixt:date-day-monthname-year-hi", element, error_repository
+            fact_value = parse_date_fact_value(
+                fact_value,
+                numeric_format if is_numeric else name_format,
+                element,
+                error_repository,
             )
-
-            fact_value = fact_value_option_1 or fact_value_option_2
         else:
             fact_value = parse_date_fact_value(
                 fact_value, fact_format, element, error_repository
-- 
2.43.0


From a2fbe092eea50c9ee2db238d74d3a68f06f6b989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:09 +0000
Subject: [PATCH 47/83] fix: convert dates of the Indian national calendar

---
 .../xhtml_parse_transformation_registry.py    | 84 ++++++++++++-------
 1 file changed, 54 insertions(+), 30 deletions(-)

diff --git a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
index c7ab6a0..63b6045 100644
--- a/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
+++ b/brel/parsers/XHMTL/xhtml_parse_transformation_registry.py
@@ -330,18 +330,18 @@ country_to_month_names = {
         ["déc", "dec"],
     ],
     "hi": [
-        ["जनवरी", "cait", "chait", "चैत्र"],
-        ["फरवरी", "vai", "वैशाख", "बैसाख"],
-        ["मार्च", "jy", "ज्येष्ठ"],
-        ["अप्रैल", "dha", "ḍha", "आषाढ", "आषाढ़"],
-        ["मई", "vana", "śrāvaṇa", "श्रावण", "सावन"],
-        ["जून", "bhadra", "proṣṭhapada", "भाद्रपद", "भादो"],
-        ["जुलाई", "in", "आश्विन"],
-        ["अगस्त", "karti", "kartik", "कार्तिक"],
-        ["सितंबर", "mrga", "marga", "agra", "मार्गशीर्ष", "अगहन"],
-        ["अक्टूबर", "pau", "पौष"],
-        ["नवंबर", "mgh", "magha", "माघ"],
-        ["दिसंबर", "phlg", "phalg", "फाल्गुन"],
+        ["जनवरी"],
+        ["फरवरी"],
+        ["मार्च"],
+        ["अप्रैल"],
+        ["मई"],
+        ["जून"],
+        ["जुलाई"],
+        ["अगस्त"],
+        ["सितंबर"],
+        ["अक्टूबर"],
+        ["नवंबर"],
+        ["दिसंबर"],
     ],
     "hr": [
         ["sij"],
@@ -527,6 +527,22 @@ country_to_month_names = {
     ],
 }
 
+# The months of the Indian national calendar
+indian_month_regexes = [
+    r"C\S*ait|चैत्र",
+    r"Vai|वैशाख|बैसाख",
+    r"Jy|ज्येष्ठ",
+    r"dha|ḍha|आषाढ|आषाढ़",
+    r"vana|Śrāvaṇa|श्रावण|सावन",
+    r"Bh\S+dra|Proṣṭhapada|भाद्रपद|भादो",
+    r"in|आश्विन",
+    r"K\S+rti|कार्तिक",
+    r"M\S+rga|Agra|मार्गशीर्ष|अगहन",
+    r"Pau|पौष",
+    r"M\S+gh|माघ",
+    r"Ph\S+lg|फाल्गुन",
+]
+
 japanese_era_to_gregorian_period = {
     # era: (starting_date, ending_date)
     "明治": (datetime.date(1868, 10, 23), datetime.date(1912, 7, 29)),
@@ -545,7 +561,7 @@ legacy_to_current_formats = {
     # Transformation registries 2 and 3
     "ixt:booleanfalse": "ixt:fixed-false",
     "ixt:booleantrue": "ixt:fixed-true",
-    "ixt:calindaymonthyear": "ixt:date-ind-day-month-year-hi",
+    "ixt:calindaymonthyear": "ixt:date-ind-day-monthname-year-hi",
     "ixt:datedaymonth": "ixt:date-day-month",
     "ixt:datedaymonthdk": "ixt:date-day-monthname-da",
     "ixt:datedaymonthen": "ixt:date-day-monthname-en",
@@ -664,24 +680,33 @@ def convert_japanese_imperial_date_to_gregorian(
 def convert_national_indian_date_to_gregorian(
     date_parts: dict[str, str],
 ) -> dict[str, str]:
-    if len("year") == 2:
-        date_parts["year"] = "19" + date_parts["year"]
-
-    gregorian_date = indian_civil.to_gregorian(
-        int(date_parts["year"]), int(date_parts["month"]), int(date_parts["day"])
+    month = next(
+        i + 1
+        for i, month_regex in enumerate(indian_month_regexes)
+        if re.fullmatch(month_regex, date_parts["month"])
     )
+    day = int(date_parts["day"])
+
+    has_two_digit_year = len(date_parts["year"]) == 2
+    year = int("19" + date_parts["year"] if has_two_digit_year else date_parts["year"])
+
+    gregorian_date = indian_civil.to_gregorian(year, month, day)
+
+    # There is no such day in that month
+    if indian_civil.from_gregorian(*gregorian_date) != (year, month, day):
+        return {"year": str(year), "day": f"{day:02}"}
 
     gregorian_year, gregorian_month, gregorian_day = gregorian_date
 
     # We assume two-digit years fall within 2000 and 2099, as in the specifications
-    if len("year") == 2 and gregorian_year < 2000:
+    if has_two_digit_year and gregorian_year < 2000:
         gregorian_year += 100
 
-    date_parts["year"] = str(gregorian_year)
-    date_parts["month"] = "{:02n}".format(gregorian_month)
-    date_parts["day"] = "{:02n}".format(gregorian_day)
-
-    return date_parts
+    return {
+        "year": str(gregorian_year),
+        "month": f"{gregorian_month:02}",
+        "day": f"{gregorian_day:02}",
+    }
 
 
 def normalize_date_parts(
@@ -689,6 +714,10 @@ def normalize_date_parts(
 ) -> dict[str, str]:
     date_parts = {k: normalize_digits_in_string(v) for k, v in date_parts.items()}
 
+    # special handling of indian national calendar
+    if fact_format == "ixt:date-ind-day-monthname-year-hi":
+        return convert_national_indian_date_to_gregorian(date_parts)
+
     # special handling of japanese imperial calendar
     if "jpn" in fact_format:
         date_parts = convert_japanese_imperial_date_to_gregorian(
@@ -715,12 +744,7 @@ def normalize_date_parts(
                 normalized_date_parts["month"] = "{:02n}".format(i + 1)
                 break
     if "year" in date_parts:
-        # special handling of indian national calendar
-        if fact_format == "ixt:date-ind-day-monthname-year-hi":
-            normalized_date_parts = convert_national_indian_date_to_gregorian(
-                normalized_date_parts
-            )
-        elif len(date_parts["year"]) == 2:
+        if len(date_parts["year"]) == 2:
             normalized_date_parts["year"] = "20" + date_parts["year"]
         elif len(date_parts["year"]) == 1:
             normalized_date_parts["year"] = "200" + date_parts["year"]
-- 
2.43.0


From 011d66ee5264a2649f2003558acb16c7b5c0bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:35 +0000
Subject: [PATCH 48/83] fix: use every continuation at most once

---
 brel/parsers/XHMTL/elements/parse_continuation_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/parsers/XHMTL/elements/parse_continuation_chain.py b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
index 4a1fe53..ceef51f 100644
--- a/brel/parsers/XHMTL/elements/parse_continuation_chain.py
+++ b/brel/parsers/XHMTL/elements/parse_continuation_chain.py
@@ -80,6 +80,9 @@ def create_continuation_chains(
                     element_id=get_str_attribute_optional(element, "id"),
                 )
 
+                # A continuation belongs to one chain only
+                break
+
             continuation = continuation_element_index.get(continued_at)
             if continuation is None:
                 error_repository.insert(
-- 
2.43.0


From 409f624db83524cb0377e397de5c67ec902c0b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:37 +0000
Subject: [PATCH 49/83] fix: do not escape the text of inline markup twice

---
 .../XHMTL/elements/parse_non_numeric.py        | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_non_numeric.py b/brel/parsers/XHMTL/elements/parse_non_numeric.py
index 012e44b..d531966 100644
--- a/brel/parsers/XHMTL/elements/parse_non_numeric.py
+++ b/brel/parsers/XHMTL/elements/parse_non_numeric.py
@@ -32,25 +32,13 @@ def convert_escaped_characters(text: str) -> str:
     return text
 
 
-def convert_escaped_characters_recursive(content: _Element) -> None:
-    if content.text is not None:
-        content.text = convert_escaped_characters(content.text)
-
-    if content.tail is not None:
-        content.tail = convert_escaped_characters(content.tail)
-
-    for child in content:
-        convert_escaped_characters_recursive(child)
-
-
 def escape_content(content: _Element) -> str:
-    convert_escaped_characters_recursive(content)
-
     text_nodes = []
-    text_nodes.append(content.text if content.text else "")
+    text_nodes.append(convert_escaped_characters(content.text or ""))
 
+    # The markup of the children is already escaped by the serialization
     for child in content:
-        child_str = etree.tostring(child).decode()
+        child_str = etree.tostring(child, encoding="unicode")
         text_nodes.append(child_str)
 
     full_text = "".join(text_nodes)
-- 
2.43.0


From 0ad50759c4b8fc1deb774e9b3f566366a066dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:39 +0000
Subject: [PATCH 50/83] fix: do not add the text after a footnote to the
 footnote

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index f6172c7..60138fa 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -71,7 +71,9 @@ def parse_footnote(
     relevant_content = extract_relevant_content_from_continuation_chain(
         [footnote_element] + continuation_chain
     )
-    content_text = etree.tostring(relevant_content).decode()
+    content_text = etree.tostring(
+        relevant_content, encoding="unicode", with_tail=False
+    )
 
     title = get_str_attribute_optional(footnote_element, "title")
     return id, BrelFootnote(content_text, id, language, role, id, title)
-- 
2.43.0


From 390d6d10c0c603ee8d2e45ba69c790965ab89e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:42 +0000
Subject: [PATCH 51/83] fix: open inline reports with relationships without
 order and keep the order zero

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 60138fa..6691987 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -204,6 +204,7 @@ def parse_relationship_attributes(
         linkrole = "http://www.xbrl.org/2003/role/link"
 
     order_str = get_str_attribute_optional(relationship_element, "order")
+    order = 1.0
 
     if order_str:
         try:
@@ -215,9 +216,6 @@ def parse_relationship_attributes(
                 order=order_str,
             )
 
-    if not order:
-        order = 1.0
-
     return (arcrole, linkrole, order)
 
 
-- 
2.43.0


From 84337fb3a9cd5b0eaac7a60f9eba4bceb3bce63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:44 +0000
Subject: [PATCH 52/83] fix: ignore the unknown ends of relationships after
 diagnosing them

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 6691987..73836eb 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -138,6 +138,7 @@ def validate_relationship_from_and_to_refs(
             ErrorCode.IXBRL_RELATIONSHIP_REPEATED_ID,
             relationship_element,
         )
+        toIds.difference_update(fromIds)
 
     # Check if any token in fromRefs is not a valid fact
     invalid_from_ids = [
@@ -152,6 +153,7 @@ def validate_relationship_from_and_to_refs(
             relationship_element,
             invalid_ids=str(invalid_from_ids),
         )
+        fromIds.difference_update(invalid_from_ids)
 
     # Check if any token in toRefs is not a valid fact or footnote
     invalid_to_ids = [
@@ -165,6 +167,7 @@ def validate_relationship_from_and_to_refs(
             relationship_element,
             invalid_ids=str(invalid_to_ids),
         )
+        toIds.difference_update(invalid_to_ids)
 
     # Check if all tokens in toRefs are only footnotes or only facts
     are_footnotes = [toId in footnotes for toId in toIds]
-- 
2.43.0


From a33ea92c6decac25740ad39e9944bec1a8d24fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:47 +0000
Subject: [PATCH 53/83] fix: give footnote networks their link role

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 73836eb..5c0c5da 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -346,7 +346,7 @@ def build_footnote_networks(
         network_arcs[linkrole, arcrole].append(arc)
 
     networks: List[FootnoteNetwork] = []
-    for (_, linkrole), arcs in network_arcs.items():
+    for (linkrole, _), arcs in network_arcs.items():
         network = build_footnote_network(arcs, linkrole, footnotes, fact_repository)
         networks.append(network)
 
-- 
2.43.0


From 4a7bab9317f2f2c9d83b390e59f75e2796c195b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:49 +0000
Subject: [PATCH 54/83] fix: read the link type of role references

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 5c0c5da..518acf1 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -376,7 +376,7 @@ def parse_relationships(
 def parse_role_reference(
     role_ref_element: _Element, error_repository: ErrorRepository
 ) -> None:
-    link_type = get_str_attribute_optional(role_ref_element, "xlink:linktype")
+    link_type = get_str_attribute_optional(role_ref_element, "xlink:type")
     if link_type != "simple":
         error_repository.insert(
             ErrorCode.ROLEREF_INVALID_LINKTYPE, role_ref_element, linktype=link_type
-- 
2.43.0


From b4c24572e9aaf4424425fed3026ab3e9569266be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:37 +0000
Subject: [PATCH 55/83] fix: ignore comments and processing instructions in XML
 documents

---
 brel/services/factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brel/services/factory.py b/brel/services/factory.py
index 9c5584e..21b9132 100644
--- a/brel/services/factory.py
+++ b/brel/services/factory.py
@@ -8,6 +8,7 @@
 ====================
 """
 
+from lxml.etree import XMLParser
 from lxml.etree import parse as parse_xml
 from lxml.html import html5parser
 from requests import Session
@@ -51,6 +52,9 @@ def create_xml_service(
 
 def create_xml_file_parser_resolver() -> XMLFileParserResolver:
     return XMLFileParserResolver(
-        lambda content: parse_xml(content),
+        # comments and processing instructions are not part of the data
+        lambda content: parse_xml(
+            content, XMLParser(remove_comments=True, remove_pis=True)
+        ),
         lambda content: parse_xml(content),
     )
-- 
2.43.0


From da88578b06330efc4c4ad4910a631fe104fdef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 56/83] fix: look ids up that contain quotes

---
 brel/parsers/XML/xml_facts_parser.py          |  7 +++----
 brel/parsers/XML/xml_report_element_parser.py |  3 ++-
 brel/parsers/utils/lxml_utils.py              | 13 +++++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/brel/parsers/XML/xml_facts_parser.py b/brel/parsers/XML/xml_facts_parser.py
index 0e435da..cfc58f4 100644
--- a/brel/parsers/XML/xml_facts_parser.py
+++ b/brel/parsers/XML/xml_facts_parser.py
@@ -29,6 +29,7 @@ from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import Concept
 from brel.contexts.filing_context import FilingContext
 from brel.parsers.utils.lxml_utils import (
+    find_element_by_id,
     find_elements,
     get_str_attribute,
     get_clark_notation_tag,
@@ -154,7 +155,7 @@ def parse_facts_xml(
             unit_id = xml_fact.get("unitRef")
 
             if unit_id:
-                unit_xml = xbrl_instance.find(f"{{*}}unit[@id='{unit_id}']")
+                unit_xml = find_element_by_id(xbrl_instance, "{*}unit", unit_id)
 
                 if unit_xml is None:
                     error_repository.insert(
@@ -185,9 +186,7 @@ def parse_facts_xml(
             # ======== PARSE THE CONTEXT ========
             context_id = get_str_attribute(xml_fact, "contextRef")
 
-            xml_context = xbrl_instance.find(
-                f"{{*}}context[@id='{context_id}']", namespaces=None
-            )
+            xml_context = find_element_by_id(xbrl_instance, "{*}context", context_id)
 
             if xml_context is None:
                 error_repository.insert(
diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 6c91578..7a11137 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -17,6 +17,7 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 from brel.parsers.XML.xml_report_element_factory import XMLReportElementFactory
 from brel.parsers.utils.lxml_utils import (
+    find_element_by_id,
     find_elements,
     get_str_attribute,
     get_str_attribute_optional,
@@ -96,7 +97,7 @@ def parse_report_element(
                     else current_etree
                 )
                 ref_xml = (
-                    refschema.find(f".//*[@id='{ref_id}']")
+                    find_element_by_id(refschema, ".//*", ref_id)
                     if refschema is not None
                     else None
                 )
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 5d0d8a8..4f04c51 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -149,6 +149,19 @@ def find_element(
     return element.find(xpath_query, namespaces=nsmap)
 
 
+def find_element_by_id(
+    element: _ElementTree | _Element,  # type: ignore
+    path: str,
+    id: str,
+) -> _Element | None:
+    """
+    :param path: the path of the elements to search through
+    :param id: the id of the element. It can contain any characters
+    :returns: the first element on the path with the given id or None if there is no such element
+    """
+    return next((e for e in element.iterfind(path) if e.get("id") == id), None)
+
+
 def get_all_nsmaps(
     lxml_etrees: list[lxml.etree._ElementTree],  # type: ignore
 ) -> list[dict[str, str]]:
-- 
2.43.0


From 1cb4b4a42ae5a24b40e6510dbb4b5504c9108ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:14 +0000
Subject: [PATCH 57/83] fix: recognise typed dimensions regardless of the
 prefix of typedDomainRef

---
 brel/parsers/XML/xml_report_element_parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_parser.py b/brel/parsers/XML/xml_report_element_parser.py
index 7a11137..0bae681 100644
--- a/brel/parsers/XML/xml_report_element_parser.py
+++ b/brel/parsers/XML/xml_report_element_parser.py
@@ -26,7 +26,6 @@ from brel.parsers.utils.lxml_utils import (
 from brel.qnames.qname_utils import (
     qname_from_str,
     to_clark_notation,
-    to_namespace_localname_notation,
 )
 from brel.reportelements import Dimension
 from brel.services.xml.xml_service import XMLService
@@ -83,9 +82,9 @@ def parse_report_element(
         report_element_repository.upsert(report_element)
 
         if isinstance(report_element, Dimension):
-            typed_domain_ref = qname_from_str(
-                to_namespace_localname_notation("xbrldt", "typedDomainRef"),
-                report_element_xml,
+            # the attribute is the same, regardless of its prefix
+            typed_domain_ref = to_clark_notation(
+                "http://xbrl.org/2005/xbrldt", "typedDomainRef"
             )
 
             if has_str_attribute(report_element_xml, typed_domain_ref):
-- 
2.43.0


From 48c09b4b88c03943bcf87a0993e0891d5fc8cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:06 +0000
Subject: [PATCH 58/83] fix: spell the definition network key of exported
 components correctly

---
 brel/brel_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/brel_component.py b/brel/brel_component.py
index 6701391..c9e3c17 100644
--- a/brel/brel_component.py
+++ b/brel/brel_component.py
@@ -189,7 +189,7 @@ class Component:
                 "calculation-network": (
                     True if self.__calculation_network is not None else False
                 ),
-                "definintion-network": (
+                "definition-network": (
                     True if self.__definition_network is not None else False
                 ),
             }
-- 
2.43.0


From 71f6871208819c759cf4ccfb8efd6b670dbe7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:09 +0000
Subject: [PATCH 59/83] fix: read 1 and 0 as booleans in element declarations

---
 brel/parsers/XML/xml_report_element_factory.py | 3 ++-
 brel/reportelements/concept.py                 | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/brel/parsers/XML/xml_report_element_factory.py b/brel/parsers/XML/xml_report_element_factory.py
index 4a03681..b95155a 100644
--- a/brel/parsers/XML/xml_report_element_factory.py
+++ b/brel/parsers/XML/xml_report_element_factory.py
@@ -36,7 +36,8 @@ class XMLReportElementFactory:
         :returns tuple[str, IReportElement] | None: The report element created and its ID.
         """
 
-        is_abstract = xml_element.get("abstract", "false") == "true"
+        # 1 is another way to write true
+        is_abstract = xml_element.get("abstract", "false") in ("true", "1")
 
         is_item = "item" in xml_element.get("substitutionGroup", "")
         is_hypercube_item = "hypercubeItem" in xml_element.get("substitutionGroup", "")
diff --git a/brel/reportelements/concept.py b/brel/reportelements/concept.py
index 0943747..e4eb134 100644
--- a/brel/reportelements/concept.py
+++ b/brel/reportelements/concept.py
@@ -313,9 +313,10 @@ class Concept(IReportElement):
 
         # get if the concept is nillable
         xml_nillable = xml_element.get("nillable", None)
-        # According to the XBRL 2.1 specification, the nillable attribute can be either true or false.
+        # According to the XBRL 2.1 specification, the nillable attribute can be either true or false,
+        # which can also be written as 1 and 0.
         # It is optional (thus the "None" in possible_nillable_values), and defaults to false.
-        possible_nillable_values = ["true", "false", None]
+        possible_nillable_values = ["true", "1", "false", "0", None]
         if xml_nillable not in possible_nillable_values:
             error_repository.insert(
                 ErrorCode.INVALID_CONCEPT_NILLABLE_VALUE,
@@ -326,7 +327,7 @@ class Concept(IReportElement):
 
             return None
         else:
-            nillable = xml_nillable == "true"
+            nillable = xml_nillable in ("true", "1")
 
         # get the data type of the concept
         data_type = xml_element.get("type", None)
-- 
2.43.0


From 909c5281748ca0863be9477615bb5f6b7ad1d4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:12 +0000
Subject: [PATCH 60/83] fix: read role declarations regardless of the prefix of
 the linkbase namespace

---
 brel/parsers/XML/xml_component_parser.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/brel/parsers/XML/xml_component_parser.py b/brel/parsers/XML/xml_component_parser.py
index 0904116..a35376b 100644
--- a/brel/parsers/XML/xml_component_parser.py
+++ b/brel/parsers/XML/xml_component_parser.py
@@ -28,7 +28,10 @@ from brel.contexts.filing_context import FilingContext
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.component.component_repository import ComponentRepository
 from brel.data.network.network_repository import NetworkRepository
-from brel.parsers.utils.lxml_utils import find_element, find_elements, get_str_attribute
+from brel.parsers.utils.lxml_utils import find_elements, get_str_attribute
+from brel.qnames.qname_utils import qname_from_str
+
+LINK_NAMESPACE = "http://www.xbrl.org/2003/linkbase"
 
 
 def parse_component_from_xml(
@@ -40,13 +43,17 @@ def parse_component_from_xml(
 
     role_uri = get_str_attribute(xml_element, "roleURI")
 
-    info_element = find_element(xml_element, "link:definition")
+    info_element = xml_element.find(f"{{{LINK_NAMESPACE}}}definition")
     info = (info_element.text or "") if info_element is not None else ""
 
-    used_ons = [used_on.text for used_on in find_elements(xml_element, "link:usedOn")]
+    # the names of the links can be written with any prefix
+    used_ons = [
+        qname_from_str(used_on.text or "", used_on).clark_notation()
+        for used_on in xml_element.findall(f"{{{LINK_NAMESPACE}}}usedOn")
+    ]
     networks_in_component = network_repository.get_by_linkrole(role_uri)
 
-    if "link:presentationLink" not in used_ons and any(
+    if f"{{{LINK_NAMESPACE}}}presentationLink" not in used_ons and any(
         map(lambda n: isinstance(n, PresentationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -55,7 +62,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:calculationLink" not in used_ons and any(
+    if f"{{{LINK_NAMESPACE}}}calculationLink" not in used_ons and any(
         map(lambda n: isinstance(n, CalculationNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -64,7 +71,7 @@ def parse_component_from_xml(
             linkrole_uri=role_uri,
         )
 
-    if "link:definitionLink" not in used_ons and any(
+    if f"{{{LINK_NAMESPACE}}}definitionLink" not in used_ons and any(
         map(lambda n: isinstance(n, DefinitionNetwork), networks_in_component)
     ):
         error_repository.insert(
@@ -133,6 +140,6 @@ def parse_components_xml(
         for roletype in find_elements(
             schema,
             ".//link:roleType",
-            namespaces={"link": "http://www.xbrl.org/2003/linkbase"},
+            namespaces={"link": LINK_NAMESPACE},
         ):
             component_repository.upsert(parse_component_from_xml(context, roletype))
-- 
2.43.0


From b09e871a74fc345ce40ac1c93a573aa4bc4708a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:48 +0000
Subject: [PATCH 61/83] fix: read links regardless of the prefix of the XLink
 namespace

---
 .../XML/networks/xml_networks_parser.py       |  7 +---
 brel/parsers/utils/lxml_utils.py              | 37 +++++++++++++------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_networks_parser.py b/brel/parsers/XML/networks/xml_networks_parser.py
index 95e5d3e..2967b93 100644
--- a/brel/parsers/XML/networks/xml_networks_parser.py
+++ b/brel/parsers/XML/networks/xml_networks_parser.py
@@ -26,7 +26,6 @@ from brel.parsers.utils.lxml_utils import (
     get_str_attribute_optional,
 )
 from brel.parsers.utils.network_utils import combine_networks
-from brel.qnames.qname_utils import qname_from_str
 from brel.reportelements import *
 from brel.resource import *
 
@@ -83,16 +82,14 @@ def parse_networks_from_xmls(
 
     link_xmls.sort(
         key=lambda link: is_standard_role(
-            get_str_attribute(link, qname_from_str("xlink:role", link), "")
+            get_str_attribute(link, "xlink:role", "")
         ),
         reverse=True,
     )
 
     # First pass: parse networks
     for link_xml in link_xmls:
-        link_role = get_str_attribute_optional(
-            link_xml, qname_from_str("xlink:role", link_xml)
-        )
+        link_role = get_str_attribute_optional(link_xml, "xlink:role")
         if link_role is None:
             error_repository.insert(ErrorCode.MISSING_LINK_ROLE, link_xml)
             continue
diff --git a/brel/parsers/utils/lxml_utils.py b/brel/parsers/utils/lxml_utils.py
index 4f04c51..c46065e 100644
--- a/brel/parsers/utils/lxml_utils.py
+++ b/brel/parsers/utils/lxml_utils.py
@@ -27,6 +27,27 @@ STANDARD_PREFIXES = {
 }
 
 
+XLINK_NAMESPACE = "http://www.w3.org/1999/xlink"
+
+
+def get_attribute_name(element: _Element, attribute: str | QName) -> str:
+    """
+    :param attribute: the name of an attribute. The prefix xlink always denotes the XLink namespace, regardless of the
+    prefix that the document uses for it. All other prefixes have to be declared by the document
+    :returns: the name of the attribute as it is used by lxml
+    """
+    if isinstance(attribute, QName):
+        return attribute.clark_notation()
+
+    if is_namespace_localname_notation(attribute):
+        if attribute.startswith("xlink:"):
+            return f"{{{XLINK_NAMESPACE}}}{attribute.split(':')[1]}"
+
+        return qname_from_str(attribute, element).clark_notation()
+
+    return attribute
+
+
 def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     """
     Helper function for checking if an element has a string attribute.
@@ -34,10 +55,7 @@ def has_str_attribute(element: _Element, attribute: str | QName) -> bool:
     :param attribute: str containing the name of the attribute
     :returns: bool indicating if the attribute is present
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_attribute_name(element, attribute)
 
     return attribute in element.attrib
 
@@ -54,10 +72,7 @@ def get_str_attribute(
     :raises: if the attribute is not found and no default value is provided
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_attribute_name(element, attribute)
 
     value = element.get(attribute)
     if value is None:
@@ -76,10 +91,7 @@ def get_str_attribute_optional(element: _Element, attribute: str | QName) -> str
     :return: str containing the value of the attribute
     :raises: if the attribute is not a string
     """
-    if isinstance(attribute, QName):
-        attribute = attribute.clark_notation()
-    elif is_namespace_localname_notation(attribute):
-        attribute = qname_from_str(attribute, element).clark_notation()
+    attribute = get_attribute_name(element, attribute)
 
     return element.attrib.get(attribute)
 
@@ -126,6 +138,7 @@ def find_elements(
 
     if not namespaces:
         namespaces = {k: v for k, v in element.nsmap.items() if k is not None}
+        namespaces["xlink"] = XLINK_NAMESPACE
 
     try:
         find = XPath(xpath_query, namespaces=namespaces)
-- 
2.43.0


From 3975320bfe547869fcee25fc75203dc51f6db1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:52 +0000
Subject: [PATCH 62/83] fix: do not compare totals to facts with additional
 dimensions

---
 brel/networks/calculation_network.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 77f04b1..51654f6 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -170,8 +170,17 @@ class CalculationNetwork(INetwork):
                                 )
                             )
 
+                    # the child fact must not have any aspects that the node fact does not have
+                    all_child_facts = [
+                        fact
+                        for fact in child_facts
+                        if all(
+                            aspect in node_fact.get_aspects()
+                            for aspect in fact.get_aspects()
+                        )
+                    ]
+
                     # there should only be one child fact left
-                    all_child_facts = list(child_facts)
                     parent_characteristics = {
                         aspect.get_name(): str(node_fact.get_characteristic(aspect))
                         for aspect in node_fact.get_aspects()
-- 
2.43.0


From 397e76a5fda8ff796ac3dcbd5ad5fa4fafc78818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:55 +0000
Subject: [PATCH 63/83] fix: do not let rounding errors of floats make
 calculations inconsistent

---
 brel/networks/calculation_network.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/brel/networks/calculation_network.py b/brel/networks/calculation_network.py
index 51654f6..81633b5 100644
--- a/brel/networks/calculation_network.py
+++ b/brel/networks/calculation_network.py
@@ -14,6 +14,7 @@ Calculation networks also contain helper functions for checking the consistency
 
 DEBUG = False
 
+from decimal import Decimal
 from typing import Iterable, cast
 
 from brel import Fact, QName
@@ -22,6 +23,14 @@ from brel.networks import CalculationNetworkNode, INetwork, INetworkNode
 from brel.reportelements import *
 
 
+def exact(number: float) -> Decimal:
+    """
+    Sums of floats are subject to rounding errors, e.g. 0.1 + 0.2 != 0.3. Sums of decimals are not.
+    :returns Decimal: the decimal number that is written as the given float
+    """
+    return Decimal(repr(number))
+
+
 class CalculationNetwork(INetwork):
     """
     The class for representing a calculation network.
@@ -135,13 +144,13 @@ class CalculationNetwork(INetwork):
             )
 
             for node_fact in node_facts:
-                node_value = float(node_fact)
+                node_value = exact(float(node_fact))
 
                 if DEBUG:  # pragma: no cover
                     print(f"{node_fact._get_id()}: {node_value} = ", end=" ")
 
                 # get the sum of the children values
-                children_sum: float = 0
+                children_sum = Decimal(0)
                 for child in node.get_children():
                     child = cast(CalculationNetworkNode, child)
                     child_concept = child.get_concept()
@@ -198,7 +207,9 @@ class CalculationNetwork(INetwork):
 
                     child_fact = all_child_facts[0]
 
-                    children_sum += float(child_fact) * child.get_weight()
+                    children_sum += exact(float(child_fact)) * exact(
+                        child.get_weight()
+                    )
 
                     if DEBUG:  # pragma: no cover
                         print(
-- 
2.43.0


From d929c4efd66a342302fd29f14045588e664bea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:28 +0000
Subject: [PATCH 64/83] fix: read networks in the order of the document instead
 of a random one

---
 .../XML/networks/xml_extended_link_parser.py  | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/brel/parsers/XML/networks/xml_extended_link_parser.py b/brel/parsers/XML/networks/xml_extended_link_parser.py
index 579f7a0..f2ac8f9 100644
--- a/brel/parsers/XML/networks/xml_extended_link_parser.py
+++ b/brel/parsers/XML/networks/xml_extended_link_parser.py
@@ -116,9 +116,10 @@ def parse_xml_link(
 
     for network_factory in network_factories:
         nodes_lookup: dict[str, list[INetworkNode]] = defaultdict(list)
-        edges: set[tuple[str, str, str]] = set()
+        # dicts instead of sets, as they keep the order of the document
+        edges: dict[tuple[str, str, str], None] = {}
         node_to_arcs: dict[str, list[lxml.etree._Element]] = defaultdict(list)  # type: ignore
-        roots: set[INetworkNode] = set()
+        roots: dict[INetworkNode, None] = {}
 
         for arc_element in find_elements(xml_link_element, ".//*[@xlink:type='arc']"):
             arc_from = get_str_attribute(arc_element, "xlink:from")
@@ -134,7 +135,7 @@ def parse_xml_link(
                 )
                 continue
 
-            edges.add((arc_from, arc_to, arc_role))
+            edges[(arc_from, arc_to, arc_role)] = None
             node_to_arcs[arc_from].append(arc_element)
             node_to_arcs[arc_to].append(arc_element)
 
@@ -176,18 +177,18 @@ def parse_xml_link(
                     if node is None:
                         continue
 
-                    roots.add(node)
+                    roots[node] = None
                     nodes_lookup[label].append(node)
                 else:
-                    outgoing_role_types = set(
+                    outgoing_role_types = dict.fromkeys(
                         get_str_attribute(arc, "xlink:arcrole") for arc in arcs_from
                     )
 
-                    incoming_role_types = set(
+                    incoming_role_types = dict.fromkeys(
                         get_str_attribute(arc, "xlink:arcrole") for arc in arcs_to
                     )
 
-                    for role_type in incoming_role_types.union(outgoing_role_types):
+                    for role_type in incoming_role_types | outgoing_role_types:
                         node_arcs.sort(
                             key=lambda arc: get_str_attribute(arc, "xlink:to") == label,
                             reverse=True,
@@ -214,7 +215,7 @@ def parse_xml_link(
                             continue
 
                         if role_type not in incoming_role_types:
-                            roots.add(node)
+                            roots[node] = None
                         nodes_lookup[label].append(node)
 
             else:
@@ -230,7 +231,7 @@ def parse_xml_link(
                     if node is None:
                         continue
 
-                    roots.add(node)
+                    roots[node] = None
                     nodes_lookup[label].append(node)
                 else:
                     arc = arcs_to[0] if len(arcs_to) > 0 else arcs_from[0]
@@ -243,7 +244,7 @@ def parse_xml_link(
                         continue
 
                     if len(arcs_to) == 0:
-                        roots.add(node)
+                        roots[node] = None
                     nodes_lookup[label].append(node)
 
         # second pass. Create the tree by iterating over the edges and adding the edge's 'to' node as a child to the edge's 'from' node
@@ -270,7 +271,7 @@ def parse_xml_link(
             continue
 
         if network_factory.is_physical():
-            role_types = set(node.get_arc_role() for node in roots)
+            role_types = dict.fromkeys(node.get_arc_role() for node in roots)
             for role_type in role_types:
                 role_type_roots = [
                     node for node in roots if node.get_arc_role() == role_type
-- 
2.43.0


From de29041e8c26cf586eb0c24b0ad542445188086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:31 +0000
Subject: [PATCH 65/83] fix: offer the languages of a report in the order of
 its documents instead of a random one

---
 brel/services/xml/xml_service.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ddc8c27..ca67bad 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -8,7 +8,7 @@
 ====================
 """
 
-from typing import List, Optional, Set
+from typing import List, Optional
 import posixpath
 import urllib.parse
 from lxml.etree import _ElementTree  # type: ignore
@@ -133,18 +133,16 @@ class XMLService:
 
     def get_available_filing_languages(self) -> List[str]:
         if self.__available_filing_languages is None:
-            all_languages: Set[str] = set()
+            # a dict instead of a set, as it keeps the order of the documents
+            all_languages: dict[str, None] = {}
             for tree in self.get_all_etrees():
                 elements_with_lang = tree.findall(
                     "//*[@xml:lang]", {"xml": "http://www.w3.org/XML/1998/namespace"}
                 )
 
-                tree_languages = set(
-                    get_str_attribute(element_with_lang, "xml:lang")
-                    for element_with_lang in elements_with_lang
-                )
-
-                all_languages = all_languages.union(tree_languages)
+                for element_with_lang in elements_with_lang:
+                    language = get_str_attribute(element_with_lang, "xml:lang")
+                    all_languages[language] = None
 
             self.__available_filing_languages = list(all_languages)
 
-- 
2.43.0


From 4966db66eff355ca1d6fa331ea9ac918207aab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:23 +0000
Subject: [PATCH 66/83] fix: do not accept incomplete dates as dates of periods

---
 brel/characteristics/period_characteristic.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/brel/characteristics/period_characteristic.py b/brel/characteristics/period_characteristic.py
index 55b290c..05f3e0f 100644
--- a/brel/characteristics/period_characteristic.py
+++ b/brel/characteristics/period_characteristic.py
@@ -125,9 +125,15 @@ class PeriodCharacteristic(ICharacteristic):
             return False
 
         try:
-            dateutil.parser.parse(date)
-            return True
-        except ValueError:
+            # parts that are missing from the text are taken from the default.
+            # a complete date does not depend on the default
+            defaults = datetime.datetime(2000, 1, 1), datetime.datetime(2001, 2, 2)
+            first, second = (
+                dateutil.parser.parse(date, default=default).date()
+                for default in defaults
+            )
+            return first == second
+        except (ValueError, OverflowError):
             return False
 
     @classmethod
-- 
2.43.0


From 7e7d04bb82686c75d0b776a86d3c363bc08e3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:18 +0000
Subject: [PATCH 67/83] fix: unknown unit ids were diagnosed with an
 unregistered error code

---
 brel/errors/error_factory_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 338bbe5..32a023b 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -219,7 +219,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         "Context ID {context_id} is not valid.",
         "Check the `contextRef` attribute of the corresponding fact.",
     ),
-    ErrorCode.XML_INVALID_FACT_CONTEXT_ID: lambda: ErrorInstance(
+    ErrorCode.XML_INVALID_FACT_UNIT_ID: lambda: ErrorInstance(
         Severity.ERROR,
         Area.XML_INSTANCE,
         "102",
-- 
2.43.0


From 160050b803fb9581a72533f16fdba70cd4b31db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:07 +0000
Subject: [PATCH 68/83] fix: diagnostics whose message could not be filled in
 aborted the report

---
 brel/errors/error_factory_registry.py           | 6 +++---
 brel/parsers/XHMTL/elements/parse_hidden.py     | 4 +++-
 brel/parsers/XHMTL/elements/parse_references.py | 2 +-
 brel/parsers/XML/xml_context_parser.py          | 8 ++++++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 32a023b..3b2bb32 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -445,8 +445,8 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Area.IXBRL_INSTANCE,
         "516",
         "Non-fraction child of another non-fraction element has a different format, scale or unit.\n"
-        + "Parent has the following format, scale and unit {parent_format), {parent_scale), {parent_unit}.\n"
-        + "The child has the following format, scale and unit: lambda: ErrorInstance(this_format), {this_scale), {this_unit}",
+        + "Parent has the following format, scale and unit {parent_format}, {parent_scale}, {parent_unit}.\n"
+        + "The child has the following format, scale and unit: {this_format}, {this_scale}, {this_unit}",
         "Check the attributes of the child and parent element.",
     ),
     ErrorCode.IXBRL_INVALID_NON_NUMERIC_FACT_ESCAPE_ATTRIBUTE_VALUE: lambda: ErrorInstance(
@@ -789,7 +789,7 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.TAXONOMY_PACKAGE,
         "002",
-        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: lambda: ErrorInstance(uri}",
+        "The catalog contains multiple rewriteURI elements with equivalent 'uriStartString' URIs: {uri}",
         "Check the rewriteURI elements for typos or duplication.",
         QName(error_namespaces["tpe"], "tpe", "multipleRewriteURIsForStartString"),
     ),
diff --git a/brel/parsers/XHMTL/elements/parse_hidden.py b/brel/parsers/XHMTL/elements/parse_hidden.py
index 70ecfb1..6b97120 100644
--- a/brel/parsers/XHMTL/elements/parse_hidden.py
+++ b/brel/parsers/XHMTL/elements/parse_hidden.py
@@ -22,5 +22,7 @@ def validate_hidden_elements(
                 )
             else:
                 error_repository.insert(
-                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT, element, tag=child_tag
+                    ErrorCode.IXBRL_INVALID_HIDDEN_ELEMENT,
+                    element,
+                    child_tag=child_tag,
                 )
diff --git a/brel/parsers/XHMTL/elements/parse_references.py b/brel/parsers/XHMTL/elements/parse_references.py
index 80b2918..2dddb8f 100644
--- a/brel/parsers/XHMTL/elements/parse_references.py
+++ b/brel/parsers/XHMTL/elements/parse_references.py
@@ -35,5 +35,5 @@ def parse_references_elements(
 
             if child_tag not in ["link:schemaRef", "link:linkbaseRef"]:
                 error_repository.insert(
-                    ErrorCode.IXBRL_INVALID_REFERENCES_CHILD, child, child_tag=child_tag
+                    ErrorCode.IXBRL_INVALID_REFERENCES_CHILD, child, children=child_tag
                 )
diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index afb42bb..1c46a91 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -20,7 +20,7 @@ from brel.characteristics import *
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.XML.characteristics import *
-from brel.parsers.utils.lxml_utils import get_str_attribute
+from brel.parsers.utils.lxml_utils import get_prefix_localname_tag, get_str_attribute
 from brel.reportelements import *
 from brel.contexts.filing_context import FilingContext
 
@@ -91,6 +91,10 @@ def parse_context_xml(
 
                 fact_context._add_characteristic(typed_dimension_characteristic)
             else:
-                error_repository.insert(ErrorCode.INVALID_DIMENSION_TYPE, xml_dimension)
+                error_repository.insert(
+                    ErrorCode.INVALID_DIMENSION_TYPE,
+                    xml_dimension,
+                    dimension_type=get_prefix_localname_tag(xml_dimension),
+                )
 
     return fact_context
-- 
2.43.0


From 4df1e24d0681d141e272b7c3973d5db9de1f518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:10 +0000
Subject: [PATCH 69/83] fix: messages of missing start and end dates were
 swapped

---
 brel/errors/error_factory_registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brel/errors/error_factory_registry.py b/brel/errors/error_factory_registry.py
index 3b2bb32..a3c17b6 100644
--- a/brel/errors/error_factory_registry.py
+++ b/brel/errors/error_factory_registry.py
@@ -41,14 +41,14 @@ error_factory_registry: Dict[ErrorCode, Callable[[], ErrorInstance]] = {
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "004",
-        "End date is missing from the duration period.",
+        "Start date is missing from the duration period.",
         "Check that the `period` element has a `startDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_MISSING_END_DATE: lambda: ErrorInstance(
         Severity.ERROR,
         Area.GENERAL_INSTANCE,
         "005",
-        "Start date is missing from the duration period.",
+        "End date is missing from the duration period.",
         "Check that the `period` element has an `endDate` child.",
     ),
     ErrorCode.DURATION_PERIOD_START_AFTER_END: lambda: ErrorInstance(
-- 
2.43.0


From b89ad7f1da82b2007076cb8cd2721770f63d9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 70/83] fix: empty entity identifiers were not diagnosed

---
 brel/parsers/XML/characteristics/xml_parse_entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XML/characteristics/xml_parse_entity.py b/brel/parsers/XML/characteristics/xml_parse_entity.py
index 097bf30..2f1c507 100644
--- a/brel/parsers/XML/characteristics/xml_parse_entity.py
+++ b/brel/parsers/XML/characteristics/xml_parse_entity.py
@@ -51,7 +51,7 @@ def parse_entity_from_xml(
     entity_id = identifier_element.text
 
     if entity_id is None:
-        f"Could not find text in identifier element {identifier_element}",
+        error_repository.insert(ErrorCode.ENTITY_IDENTIFIER_MISSING_VALUE, xml_element)
         return None
 
     # an identifier is only unique within its scheme
-- 
2.43.0


From 7a13c6867beec0a12d521c460df51d1411470195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:29 +0000
Subject: [PATCH 71/83] fix: dimensions in the scenario of a context were
 ignored

---
 brel/parsers/XML/xml_context_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XML/xml_context_parser.py b/brel/parsers/XML/xml_context_parser.py
index 1c46a91..536af53 100644
--- a/brel/parsers/XML/xml_context_parser.py
+++ b/brel/parsers/XML/xml_context_parser.py
@@ -67,11 +67,15 @@ def parse_context_xml(
     if entity is not None:
         fact_context._add_characteristic(entity)
 
-    # add the dimensions. the dimensions are the children of context/entity/segment
+    # add the dimensions. the dimensions are the children of context/entity/segment and context/scenario
     segment = context_entity.find("{*}segment", namespaces=None)
+    scenario = xml_element.find("{*}scenario", namespaces=None)
 
-    if segment is not None:
-        for xml_dimension in segment:
+    for dimension_container in (segment, scenario):
+        if dimension_container is None:
+            continue
+
+        for xml_dimension in dimension_container:
             if "explicitMember" in xml_dimension.tag:
                 explicit_dimension_characteristic = parse_explicit_dimension_from_xml(
                     filing_context, xml_dimension
-- 
2.43.0


From 833999c47d1c63d8bc9ba2400ba8415656ef9d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:59 +0000
Subject: [PATCH 72/83] fix: a role declared in several schemas had several
 components

---
 brel/data/component/in_memory_component_repository.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brel/data/component/in_memory_component_repository.py b/brel/data/component/in_memory_component_repository.py
index bed3472..c6cb544 100644
--- a/brel/data/component/in_memory_component_repository.py
+++ b/brel/data/component/in_memory_component_repository.py
@@ -20,7 +20,9 @@ class InMemoryComponentRepository(ComponentRepository):
         return self.__components
 
     def upsert(self, component: Component) -> None:
-        if component in self.__components:
-            self.__components.remove(component)
+        # a role can be declared in several schemas
+        for existing in list(self.__components):
+            if existing.get_URI() == component.get_URI():
+                self.__components.remove(existing)
 
         self.__components.append(component)
-- 
2.43.0


From f24cfa36a8b2d6548a01591d8c13cb736235feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:33 +0000
Subject: [PATCH 73/83] fix: reports could only be opened from the root folder
 of the repository

---
 brel/config/brel_config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brel/config/brel_config.py b/brel/config/brel_config.py
index 0b26753..017089f 100644
--- a/brel/config/brel_config.py
+++ b/brel/config/brel_config.py
@@ -1,3 +1,4 @@
+import os
 from locale import getdefaultlocale
 from typing import List, Optional, Unpack, cast
 
@@ -44,4 +45,5 @@ class BrelConfig:
 
     @classmethod
     def get_translations_filepath(cls) -> str:
-        return "./brel/config/translations.csv"
+        # independent of the working directory
+        return os.path.join(os.path.dirname(__file__), "translations.csv")
-- 
2.43.0


From e4ef078a0c43deabf54235010ae75072e8cb0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:16 +0000
Subject: [PATCH 74/83] fix: absolute rewrite prefixes were resolved against
 the location of the catalog

---
 brel/parsers/XML/xml_parse_catalog.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/brel/parsers/XML/xml_parse_catalog.py b/brel/parsers/XML/xml_parse_catalog.py
index 1dab1ff..274b6fc 100644
--- a/brel/parsers/XML/xml_parse_catalog.py
+++ b/brel/parsers/XML/xml_parse_catalog.py
@@ -1,3 +1,5 @@
+from urllib.parse import urlparse
+
 from lxml.etree import _ElementTree, _Element
 from brel.contexts.filing_context import FilingContext
 from brel.errors.error_code import ErrorCode
@@ -42,7 +44,10 @@ def parse_catalog_xml(
 
         replacement_string_pieces = replacement_string.split("/")
 
-        complete_replacement_string = "/".join(
-            catalog_filepath_pieces[:-1] + replacement_string_pieces
+        # only relative prefixes are relative to the catalog
+        complete_replacement_string = (
+            replacement_string
+            if urlparse(replacement_string).scheme
+            else "/".join(catalog_filepath_pieces[:-1] + replacement_string_pieces)
         )
         uri_rewrite_repository.upsert(original_string, complete_replacement_string)
-- 
2.43.0


From 6ff6ab5f7a760aa517d0a32d40b8c96ded389aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:28 +0000
Subject: [PATCH 75/83] fix: inline relationships whose target is a fact that
 is not boolean

---
 brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
index 518acf1..4fd33a7 100644
--- a/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
+++ b/brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py
@@ -287,7 +287,7 @@ def create_footnote_network_nodes(
                     else fact_repository.get_by_id(to_id)
                 )
 
-                if not to_object:
+                if to_object is None:
                     # Error
                     continue
 
-- 
2.43.0


From bb733f7942b7fd2c6773483dbf1defd48c33e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:21 +0000
Subject: [PATCH 76/83] fix: diagnose inline headers inside the head of the
 document

---
 brel/parsers/XHMTL/elements/parse_header.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/brel/parsers/XHMTL/elements/parse_header.py b/brel/parsers/XHMTL/elements/parse_header.py
index faf84f4..f3babe8 100644
--- a/brel/parsers/XHMTL/elements/parse_header.py
+++ b/brel/parsers/XHMTL/elements/parse_header.py
@@ -3,7 +3,6 @@ from brel.data.errors.error_repository import ErrorRepository
 from brel.errors.error_code import ErrorCode
 
 from brel.parsers.utils.lxml_utils import (
-    find_element,
     find_elements,
     get_prefix_localname_tag,
 )
@@ -13,9 +12,13 @@ from lxml.etree import _Element
 def check_no_header_element_in_head(
     etree: _Element, error_repository: ErrorRepository
 ) -> None:
-    head_elements = find_elements(etree, ".//head")
+    namespaces = {
+        "xhtml": "http://www.w3.org/1999/xhtml",
+        "ix": "http://www.xbrl.org/2013/inlineXBRL",
+    }
+    head_elements = find_elements(etree, ".//xhtml:head", namespaces)
     for head_element in head_elements:
-        if find_element(head_element, ".//ix:header"):
+        if find_elements(head_element, ".//ix:header", namespaces):
             error_repository.insert(
                 ErrorCode.IXBRL_HEADER_ELEMENT_IN_HEAD, head_element
             )
-- 
2.43.0


From 65168164e868fe54ed4599e93491c6ed0b4e8d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 77/83] fix: paths of local files that contain characters that
 are special in uris

---
 brel/services/xml/xml_service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index ca67bad..d5b71f6 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -60,7 +60,10 @@ class XMLService:
                 self.__xml_repository.add_etree(uri, parser(file))
         else:
             # local files may have changed since they were last copied
-            local_filepath = urllib.parse.urlparse(uri).path
+            # the path of a local file can contain any characters
+            local_filepath = (
+                urllib.parse.urlparse(uri).path if uri.startswith("file:") else uri
+            )
             with self.__file_service.copy_and_add_file(local_filepath) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
 
-- 
2.43.0


From 704afaf02fc91e62a96e6c0532357680a90208ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:47 +0000
Subject: [PATCH 78/83] fix: local files whose path starts with http were
 treated as remote

---
 brel/data/xml/xml_repository.py  |  3 ++-
 brel/parsers/utils/file_utils.py | 10 +++++++++-
 brel/services/xml/xml_service.py |  7 ++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/brel/data/xml/xml_repository.py b/brel/data/xml/xml_repository.py
index 64e98a2..cb30d57 100644
--- a/brel/data/xml/xml_repository.py
+++ b/brel/data/xml/xml_repository.py
@@ -13,6 +13,7 @@ The XMLSchemaManager class is responsible for downloading and caching XBRL taxon
 
 import lxml
 import lxml.etree
+from brel.parsers.utils.file_utils import is_remote_uri
 from brel.parsers.utils.lxml_xpath_utils import add_xpath_functions
 
 
@@ -22,7 +23,7 @@ class XMLRepository:
         add_xpath_functions()
 
     def normalize_uri(self, uri: str) -> str:
-        if uri.startswith("http"):
+        if is_remote_uri(uri):
             return uri
 
         return uri.replace("\\", "/")
diff --git a/brel/parsers/utils/file_utils.py b/brel/parsers/utils/file_utils.py
index 0321245..51c34fa 100644
--- a/brel/parsers/utils/file_utils.py
+++ b/brel/parsers/utils/file_utils.py
@@ -12,6 +12,14 @@ import hashlib
 import re
 
 
+def is_remote_uri(uri: str) -> bool:
+    """
+    :param uri: the uri of a file or the path of a local file
+    :returns bool: True if the file has to be downloaded. The path of a local file can start with "http"
+    """
+    return uri.startswith(("http://", "https://"))
+
+
 def uri_to_filename(uri: str) -> str:
     """
     Converts a uri to a filename.
@@ -23,7 +31,7 @@ def uri_to_filename(uri: str) -> str:
     file_format_match = re.search(r"\.([a-zA-Z0-9]+)$", uri)
     file_format = "." + file_format_match.group(1) if file_format_match else ""
 
-    if not uri.startswith("http"):
+    if not is_remote_uri(uri):
         posix_uri = uri.replace("\\", "/")
         if "/" in posix_uri:
             return posix_uri.split("/")[-1]
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index d5b71f6..568a585 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -16,6 +16,7 @@ import urllib
 
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
 from brel.data.xml.xml_repository import XMLRepository
+from brel.parsers.utils.file_utils import is_remote_uri
 from brel.parsers.utils.lxml_utils import get_str_attribute
 from brel.services.file.file_service import FileService
 from brel.services.xml.xml_file_parser_resolver import XMLFileParserResolver
@@ -45,7 +46,7 @@ class XMLService:
         the referencing_uri is useful if a remote file references local files (e.g. http://example.com/file.xml has a reference to other_file.xml)
         """
         uri = self.__resolve_uri(uri, referencing_uri)
-        is_uri_remote = uri.startswith("http")
+        is_uri_remote = is_remote_uri(uri)
 
         if self.__xml_repository.has_etree(uri):
             return
@@ -71,7 +72,7 @@ class XMLService:
             self.add_etree_recursive(reference_uri, referencing_uri=uri)
 
     def __resolve_uri(self, uri: str, referencing_uri: str) -> str:
-        is_uri_remote = uri.startswith("http") or referencing_uri.startswith("http")
+        is_uri_remote = is_remote_uri(uri) or is_remote_uri(referencing_uri)
         if not is_uri_remote:
             referencing_splitting_char = "\\" if "\\" in referencing_uri else "/"
             uri_splitting_char = "\\" if "\\" in uri else "/"
@@ -85,7 +86,7 @@ class XMLService:
 
         uri = self.__uri_rewrite_repository.rewrite(uri)
         # a remote uri may be rewritten to a local file
-        if not uri.startswith("http") and "\\" not in uri:
+        if not is_remote_uri(uri) and "\\" not in uri:
             # the same file can be referred to in different ways
             uri = posixpath.normpath(uri)
 
-- 
2.43.0


From 8072499197b87ee9aaa9731e70a1c46168ad3bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:00 +0000
Subject: [PATCH 79/83] fix: images and hyperlinks were followed as if they
 were schema or linkbase references

---
 brel/services/xml/xml_service.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index 568a585..a3f71f5 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -11,7 +11,7 @@
 from typing import List, Optional
 import posixpath
 import urllib.parse
-from lxml.etree import _ElementTree  # type: ignore
+from lxml.etree import QName, _ElementTree  # type: ignore
 import urllib
 
 from brel.data.uri_rewrite.uri_rewrite_repository import URIRewriteRepository
@@ -99,6 +99,13 @@ class XMLService:
         for element in self.__xml_repository.get_etree(uri).iter("*"):
             for attribute, value in element.attrib.items():
                 if attribute == "{http://www.w3.org/1999/xlink}href":
+                    # other links, e.g. to the images of inline documents, are not part of the report
+                    if (
+                        QName(element).namespace != "http://www.xbrl.org/2003/linkbase"
+                        and element.get("{http://www.w3.org/1999/xlink}type")
+                        != "locator"
+                    ):
+                        continue
                     href_uri = value.split("#")[0].strip()
                     if href_uri:
                         reference_uris[href_uri] = None
-- 
2.43.0


From e6a1f63b9ab984d21c00deafcf6f6c81626a098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:17 +0000
Subject: [PATCH 80/83] fix: an unavailable remote file was reported but then
 read anyway, so that the report could not be opened

---
 brel/services/file/file_service.py | 15 +++++++++------
 brel/services/xml/xml_service.py   |  5 ++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/brel/services/file/file_service.py b/brel/services/file/file_service.py
index 9f52118..45c7a55 100644
--- a/brel/services/file/file_service.py
+++ b/brel/services/file/file_service.py
@@ -10,8 +10,8 @@
 
 import time
 from io import BytesIO
-from typing import IO
-from requests import Session
+from typing import IO, Optional
+from requests import HTTPError, Session
 from brel.data.errors.error_repository import ErrorRepository
 from brel.data.file.file_repository import FileRepository
 from brel.errors.error_code import ErrorCode
@@ -37,7 +37,10 @@ class FileService:
     def has_file(self, uri: str) -> bool:
         return self.__file_repository.has_file(uri)
 
-    def download_and_add_file(self, uri: str) -> IO[bytes]:
+    def download_and_add_file(self, uri: str) -> Optional[IO[bytes]]:
+        """
+        :returns: The downloaded file or None if the file is not available. The latter is reported as an error.
+        """
         headers = {}
 
         if "www.sec.gov" in uri:
@@ -51,15 +54,15 @@ class FileService:
         response = self.__session.get(uri, headers=headers, timeout=10)
         try:
             response.raise_for_status()
-            file = BytesIO(response.content)
-            self.add_file(uri, file)
-        except:
+        except HTTPError:
             self.__error_repository.insert(
                 ErrorCode.UNAVAILABLE_REMOTE_FILE,
                 uri=uri,
                 status_code=str(response.status_code),
             )
+            return None
 
+        self.add_file(uri, BytesIO(response.content))
         return self.get_file(uri)
 
     def copy_and_add_file(self, local_path: str) -> IO[bytes]:
diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index a3f71f5..d5e229b 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -57,7 +57,10 @@ class XMLService:
             with self.__file_service.get_file(uri) as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         elif is_uri_remote:
-            with self.__file_service.download_and_add_file(uri) as file:
+            downloaded_file = self.__file_service.download_and_add_file(uri)
+            if downloaded_file is None:
+                return
+            with downloaded_file as file:
                 self.__xml_repository.add_etree(uri, parser(file))
         else:
             # local files may have changed since they were last copied
-- 
2.43.0


From a6faa51caa45cb91e94c8b515cfca1b9c1e2fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:44 +0000
Subject: [PATCH 81/83] fix: documents in the working directory could be read
 twice when also referred to from another directory

---
 brel/services/xml/xml_service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/brel/services/xml/xml_service.py b/brel/services/xml/xml_service.py
index d5e229b..a8e0718 100644
--- a/brel/services/xml/xml_service.py
+++ b/brel/services/xml/xml_service.py
@@ -9,6 +9,7 @@
 """
 
 from typing import List, Optional
+import os
 import posixpath
 import urllib.parse
 from lxml.etree import QName, _ElementTree  # type: ignore
@@ -91,7 +92,11 @@ class XMLService:
         # a remote uri may be rewritten to a local file
         if not is_remote_uri(uri) and "\\" not in uri:
             # the same file can be referred to in different ways
-            uri = posixpath.normpath(uri)
+            uri = (
+                posixpath.normpath(uri)
+                if uri.startswith("file:")
+                else os.path.abspath(uri)
+            )
 
         return uri
 
-- 
2.43.0


From 89a3578d2aeb5ce2267a9b884017f8024f538a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:07 +0000
Subject: [PATCH 82/83] fix: EDGAR filings could not be opened if one of the
 form has no report date

---
 brel/utils/edgar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index 21e90ec..f26bfaf 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -132,9 +132,8 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         right_is = [i for i in range(len(recent["form"])) if report_fits(i)]
 
-        right_is.sort(
-            key=lambda i: int(recent["reportDate"][i].replace("-", "")), reverse=True
-        )
+        # dates have the format YYYY-MM-DD. Some filings have no report date
+        right_is.sort(key=lambda i: recent["reportDate"][i], reverse=True)
 
         right_i = right_is[0] if len(right_is) > 0 else None
 
-- 
2.43.0


From 6571caeef820e0a63ad3240d551bf48454357179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:10 +0000
Subject: [PATCH 83/83] fix: only the extension of the primary document of an
 EDGAR filing is replaced

---
 brel/utils/edgar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brel/utils/edgar.py b/brel/utils/edgar.py
index f26bfaf..862cc7f 100644
--- a/brel/utils/edgar.py
+++ b/brel/utils/edgar.py
@@ -149,7 +149,7 @@ def open_edgar(cik: str, filing_type: str, date: str | None = None) -> Filing:
 
         if uri.endswith(".htm"):
             uri_dir = uri[: uri.rfind("/")]
-            uri = uri.replace(".htm", "_htm.xml")
+            uri = uri.removesuffix(".htm") + "_htm.xml"
             ping = session.get(
                 uri,
                 headers={
-- 
2.43.0

