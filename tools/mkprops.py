"""Regenerates /verif/properties.jsonl (kept as a script so that wording edits stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               **({"observe_at": observe} if observe else {}), hook_needed=None)))

prop("C01", "Every reported fact is extracted exactly once, unaltered",
 "Opening an XML report yields exactly one fact for every item element whose concept, context and (if given) unit reference resolve, and no other facts. Each fact carries that element's text as its value and its identifier, decimals and precision, whether or not it has an identifier. Facts are enumerated completely and two facts never replace one another unless they share an identifier.",
 ["inputs"], "every report instance: any number of facts, contexts, units, with or without ids, nil or empty, in any document order, spread over any number of instance documents",
 "The suite opens a handful of fixed filings (most of them need the network) and only checks object types; no test compares the extracted facts to the source.",
 ["brel/parsers/XML/xml_facts_parser.py", "brel/data/fact/in_memory_fact_repository.py", "brel/brel_fact.py", "brel/brel_filing.py"],
 [("element-to-fact loop", "brel/parsers/XML/xml_facts_parser.py:parse_facts_xml"), ("fact construction", "brel/parsers/XML/xml_facts_parser.py:parse_fact_from_xml"), ("fact store", "brel/data/fact/in_memory_fact_repository.py")],
 [("by-id map and list", "the extracted facts", "InMemoryFactRepository")], ["Filing.get_all_facts"])

prop("C02", "A fact's context says exactly what its source context says",
 "The aspects of an extracted fact are exactly: the concept named by its element, the period, the entity (identifier and scheme) and every explicit and typed dimension of the context it refers to, and the unit it refers to. This holds regardless of which other facts, contexts and units occur in the report or in which order they were read: values that are shared between facts are never confused with one another.",
 ["inputs", "histories"], "every sequence of contexts/units/facts read into one report, including contexts that differ in a single component (scheme, member, typed value, start date) and identifiers that look alike",
 "Characteristic caching makes the result for one fact depend on everything parsed before it; the tests construct single characteristics by hand.",
 ["brel/parsers/XML/xml_context_parser.py", "brel/parsers/XML/characteristics/xml_parse_entity.py", "brel/parsers/XML/characteristics/xml_parse_period.py", "brel/parsers/XML/characteristics/xml_parse_explicit_dimension.py", "brel/parsers/XML/characteristics/xml_parse_typed_dimension.py", "brel/parsers/XML/characteristics/xml_parse_unit.py", "brel/data/characteristic/in_memory_characteristic_repository.py"],
 [("cache keys", "brel/parsers/XML/characteristics/*.py"), ("typed cache", "brel/data/characteristic/in_memory_characteristic_repository.py")],
 [("characteristic cache", "characteristics seen so far, by type and key", "InMemoryCharacteristicRepository")])

prop("C03", "A context binds each aspect at most once and answers lookups accordingly",
 "In any context, each aspect has at most one value, a later value for an aspect already present does not change it, the listed aspects are exactly those that have a value, and looking an aspect up returns precisely the value listed for it (nothing if absent). The concept, period, entity and unit accessors and the dimension listing agree with the generic lookup.",
 ["inputs", "histories"], "every sequence of characteristics added to a context, in every order, with repeated and dimension aspects",
 "Tests never build a context with conflicting or repeated aspects or compare the accessors with one another.",
 ["brel/brel_context.py", "brel/characteristics/brel_aspect.py"],
 [("insertion and lookup", "brel/brel_context.py:Context"), ("aspect identity", "brel/characteristics/brel_aspect.py:Aspect")],
 [("characteristics and aspects of a context", "parallel lists/dict", "Context")])

prop("C04", "Fact values convert according to their text and concept type",
 "The textual value of a fact is always returned unchanged; the integer, floating-point and boolean conversions succeed exactly when that text denotes such a value and then return it, and otherwise raise an error instead of returning something else. The typed value of a fact is an integer, decimal number, boolean or text according to the data type of its concept.",
 ["inputs"], "every value text and every concept data type",
 "No test converts fact values at all.",
 ["brel/brel_fact.py", "brel/reportelements/concept.py"],
 [("conversions", "brel/brel_fact.py:Fact"), ("type predicates", "brel/reportelements/concept.py:Concept")])

prop("C05", "Balance consistency of calculations is exactly its definition",
 "A calculation network is reported balance consistent if and only if, for every parent/child pair anywhere in it, both concepts declare a balance and the child's weight is non-negative when the balances agree and non-positive when they differ, and every node's concept declares a balance. The check depends on nothing else and changes nothing.",
 ["inputs"], "every calculation network: any shape, depth, number of roots, weights including zero, balances including missing ones",
 "The four existing tests try three-node trees; a violation can sit in any subtree.",
 ["brel/networks/calculation_network.py", "brel/networks/calculation_network_node.py", "brel/reportelements/concept.py"],
 [("recursive check", "brel/networks/calculation_network.py:is_balance_consistent")])

prop("C06", "Aggregation consistency of calculations is exactly its definition",
 "A calculation network is reported aggregation consistent against a set of facts if and only if, for every non-leaf node and every fact reported for its concept, that fact's value equals the weighted sum of the child concepts' facts that agree with it on every other aspect. Nodes at every depth are checked whether or not their parents have facts; a missing or ambiguous child fact is reported as an error and never as consistency.",
 ["inputs"], "every network shape and every fact set (several periods, units, dimensions, facts missing at inner nodes)",
 "The existing tests use one parent with two children; depth, missing inner facts and cross-aspect matching are not sampled.",
 ["brel/networks/calculation_network.py", "brel/brel_fact.py", "brel/brel_context.py"],
 [("recursive check", "brel/networks/calculation_network.py:is_aggregation_consistent")])

prop("C07", "Networks mirror the arcs of the linkbase",
 "For every extended link, the networks built from it contain a node for each locator or resource that takes part in an arc (or stands alone), have as parent-child pairs exactly the pairs joined by arcs (per arcrole), list children in ascending order attribute, and have as roots exactly the nodes without incoming arc. Every node and network reports the arcrole, arc name, link role, link name, order and (for calculations) weight written in the source.",
 ["inputs"], "every extended link: any arc graph over its locators, any order attributes, several arcroles, duplicate arcs, unresolvable locators, any document order",
 "Tests only assert that some networks exist for a few fixed filings.",
 ["brel/parsers/XML/networks/xml_extended_link_parser.py", "brel/parsers/XML/networks/xml_presentation_network_factory.py", "brel/parsers/XML/networks/xml_calculation_network_factory.py", "brel/parsers/XML/networks/xml_definition_network_factory.py", "brel/parsers/XML/networks/xml_label_network_factory.py", "brel/parsers/XML/networks/xml_reference_network_factory.py", "brel/networks/i_network_node.py"],
 [("two-pass construction", "brel/parsers/XML/networks/xml_extended_link_parser.py:parse_xml_link"), ("child ordering", "brel/networks/*_network_node.py:_add_child")])

prop("C08", "Traversal of a network reaches every node and nothing else",
 "Listing all nodes of a network returns exactly the nodes reachable from its roots through children, each once; the descendants of a node are exactly the nodes reachable from it; leaf, root, arcrole and arc-name queries agree with that structure. Traversal never modifies the network.",
 ["inputs"], "every finite network, of any width, depth and sharing of subtrees",
 "Tests build at most three nodes.",
 ["brel/networks/i_network.py", "brel/networks/i_network_node.py", "brel/networks/presentation_network_node.py", "brel/networks/calculation_network_node.py", "brel/networks/definition_network_node.py", "brel/networks/label_network_node.py", "brel/networks/reference_network_node.py", "brel/networks/footnote_network_node.py"],
 [("traversals", "brel/networks/i_network.py:get_all_nodes"), ("worklist", "brel/networks/i_network_node.py:get_all_descendants")])

prop("C09", "Merging the links of one role keeps every relationship",
 "When several extended links of the same role and kind are merged into one network, every parent-child relationship of the inputs is present in the result (between nodes denoting the same thing), no other relationship is introduced, and a root of an input that occurs anywhere in the rest is attached there instead of becoming an additional root.",
 ["inputs"], "every list of networks of one kind sharing a role, in every order",
 "No test merges networks.",
 ["brel/parsers/utils/network_utils.py", "brel/parsers/XML/networks/xml_networks_parser.py"],
 [("merge", "brel/parsers/utils/network_utils.py:combine_networks"), ("grouping by role and type", "brel/parsers/XML/networks/xml_networks_parser.py:parse_networks_from_xmls")])

prop("C10", "Queries on a report return exactly the matching objects",
 "Every query of an opened report (facts of a concept, report elements of a kind or by name, concepts in use, components and networks by role or kind, diagnostics by severity or area) returns exactly the stored objects that satisfy its criterion, in the stored order and without duplicates, and never alters the report.",
 ["inputs", "histories"], "every report content and every query argument, in any sequence of queries",
 "Tests only check list element types for one fixed filing.",
 ["brel/brel_filing.py", "brel/data/report_element/in_memory_report_element_repository.py", "brel/data/report_element/report_element_repository.py", "brel/data/component/component_repository.py", "brel/data/network/in_memory_network_repository.py", "brel/data/errors/error_repository.py", "brel/services/report_element/report_element_service.py"],
 [("query methods", "brel/brel_filing.py:Filing")])

prop("C11", "Stores return what was put in, and only that",
 "For each in-memory store of a report, after any history of insertions a lookup by key returns the value most recently stored under that key (of the requested kind), membership tests agree with lookups, keys never inserted are reported absent and looking them up is an error, and operations on one key leave every other key untouched.",
 ["histories"], "every history of insertions, lookups and membership tests over all keys and kinds",
 "No test exercises the stores directly, and a test can only run a few histories.",
 ["brel/data/aspect/in_memory_aspect_repository.py", "brel/data/characteristic/in_memory_characteristic_repository.py", "brel/data/context/in_memory_context_repository.py", "brel/data/namespace/in_memory_namespace_repository.py", "brel/data/network/in_memory_network_repository.py", "brel/data/report_element/in_memory_report_element_repository.py", "brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py", "brel/data/xml/in_memory_xml_repository.py", "brel/data/fact/in_memory_fact_repository.py", "brel/data/component/in_memory_component_repository.py", "brel/data/errors/in_memory_error_repository.py"],
 [("insert/lookup pairs", "brel/data/**/in_memory_*.py")])

prop("C12", "Qualified names are read, resolved and compared faithfully",
 "A qualified name written as prefix:local, {uri}local or unprefixed is resolved against the namespace declarations in scope at the element it is written on, yielding the declared namespace and the local part; printing a name in either notation and reading it back in the same scope gives an equal name. Equal names have equal hashes, equality is an equivalence, and a name written with an undeclared prefix is never resolved to a declared name.",
 ["inputs"], "every name text, namespace declaration scope (including redefined and default prefixes) and notation",
 "Tests do not cover names at all; scoping depends on nesting of declarations.",
 ["brel/qnames/qname.py", "brel/qnames/qname_utils.py", "brel/qnames/qname_search_params.py", "brel/parsers/utils/lxml_utils.py"],
 [("parsing", "brel/qnames/qname_utils.py"), ("identity", "brel/qnames/qname.py")])

prop("C13", "Language and output preferences follow one documented precedence",
 "The languages used for output are, in order and without repetition, those asked for in the call, those configured for the report, those configured for the library, the system language if allowed, the ones the report offers if allowed, and the default if allowed, each of the last three appearing only when its own switch is on; output switches take the call's value if given, else the report's, else the library's, else off. Asking for preferences does not change any configuration.",
 ["inputs", "configurations"], "every combination of call arguments, report settings, library settings and languages present in the report",
 "No test covers the preference logic; it is a product of five independent switches.",
 ["brel/brel_filing.py", "brel/config/brel_config.py"],
 [("precedence", "brel/brel_filing.py:Filing.get_preferred_languages")])

prop("C14", "The label shown is the best available one",
 "Given an ordered list of acceptable languages, the translation chosen for a key, and the label chosen among those of a report element or aspect, is the first one in the earliest acceptable language for which one exists, where languages are compared without regard to case, and without regard to the locale exactly when locales are not to be matched. The empty language stands for the default (the key's local name, the given default label); if no acceptable language is available and the default is not acceptable, this is an error and no other text. The main label of an element or aspect is its first English one, else its first one, else the fixed placeholder. The choice is deterministic and returns only text that is present in the source.",
 ["inputs"], "every set of labels (languages, roles, order) and every language preference list, including empty ones",
 "No test calls the translation code.",
 ["brel/services/translation/translation_service.py", "brel/reportelements/i_report_element.py", "brel/resource/brel_label.py"],
 [("selection", "brel/services/translation/translation_service.py")])

prop("C15", "Inline numbers are transformed to the value they display",
 "For every supported numeric format, the value of an inline number equals the number its displayed text denotes under that format's grouping and decimal conventions, multiplied by ten to the power of its scale and negated if its sign attribute says so. Text that does not match the format is diagnosed, and no digits are ever lost, including zeros.",
 ["inputs"], "every displayed text, format, integer scale and sign",
 "No test runs a transformation; the mapping is over infinitely many numerals.",
 ["brel/parsers/XHMTL/xhtml_parse_transformation_registry.py", "brel/parsers/XHMTL/elements/parse_non_fraction.py"],
 [("number transformation", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"), ("scale and sign", "brel/parsers/XHMTL/elements/parse_non_fraction.py")])

prop("C16", "Inline dates and literals are transformed to their canonical form",
 "For every supported date format and language, displayed text that matches the format is converted to the ISO form of exactly the day, month and year it names (Gregorian, Japanese-era or Indian calendar), recurring and partial dates keep exactly the parts they name, and boolean, zero and empty formats yield exactly their fixed value. Dates that do not exist and text that does not match are diagnosed, never silently changed.",
 ["inputs"], "every calendar date in every supported format and month-name language",
 "No test runs a transformation; there are 12 month names in some 30 languages times dozens of formats.",
 ["brel/parsers/XHMTL/xhtml_parse_transformation_registry.py"],
 [("date transformation", "brel/parsers/XHMTL/xhtml_parse_transformation_registry.py")])

prop("C17", "Inline text is the displayed text, in order, without excluded parts",
 "The value of an inline text fact is the concatenation, in document order and along its chain of continuations, of all text inside it except excluded regions, with markup kept only when escaping is requested. Every continuation is used for at most one fact, and unknown, reused or unused continuations are diagnosed; reading always terminates.",
 ["inputs"], "every nesting of markup, inline elements, excluded regions and every continuation graph (including cyclic ones)",
 "No test contains continuations or excluded content.",
 ["brel/parsers/XHMTL/elements/parse_continuation_chain.py", "brel/parsers/XHMTL/elements/parse_non_numeric.py"],
 [("chain construction and merging", "brel/parsers/XHMTL/elements/parse_continuation_chain.py"), ("text extraction", "brel/parsers/XHMTL/elements/parse_non_numeric.py")])

prop("C18", "Every inline fact is extracted once with its own aspects",
 "Opening an inline report yields exactly one fact per inline number or text element (visible, hidden or nested) whose name, context and unit resolve, with the concept it names, the aspects of the context and unit it refers to, its identifier and its accuracy attributes. Elements whose references do not resolve are diagnosed and yield no fact.",
 ["inputs"], "every inline document: any nesting, hidden section, any number of contexts and units, missing or dangling references",
 "The only inline test file is opened for object types and needs the network.",
 ["brel/parsers/XHMTL/xhtml_parse_facts.py", "brel/parsers/XHMTL/elements/parse_non_fraction.py", "brel/parsers/XHMTL/elements/parse_non_numeric.py", "brel/parsers/XHMTL/elements/parse_header.py", "brel/parsers/XHMTL/elements/parse_resources.py", "brel/parsers/XHMTL/elements/parse_hidden.py", "brel/parsers/XHMTL/elements/parse_references.py"],
 [("inline parse", "brel/parsers/XHMTL/xhtml_parse_facts.py")])

prop("C19", "The set of documents read is the closure of references, each once",
 "Opening a report reads exactly the documents reachable from the given ones through schema and linkbase references, resolved relative to the referring document and through the configured rewrites, each exactly once, and terminates on cyclic references. Every document is parsed from its own content: no two documents are confused with one another.",
 ["inputs", "histories"], "every reference graph of documents, relative, nested and cyclic references, same-named files in different directories, and earlier runs sharing the cache",
 "Tests open independent files; no test has two files with one name, nested directories or cycles.",
 ["brel/services/xml/xml_service.py", "brel/services/file/file_service.py", "brel/data/file/pyfs_file_repository.py", "brel/parsers/utils/file_utils.py", "brel/data/uri_rewrite/in_memory_uri_rewrite_repository.py", "brel/parsers/XML/xml_parse_catalog.py"],
 [("recursive loading", "brel/services/xml/xml_service.py:add_etree_recursive"), ("file cache", "brel/parsers/utils/file_utils.py:uri_to_filename")])

prop("C20", "Every problem found is reported as a complete diagnostic",
 "Every kind of problem the reader can detect has a registered diagnostic whose severity, area and code are unique to it, whose message is fully filled in from the data supplied where the problem is detected, and reporting it never itself fails. The diagnostics of a report are kept in the order found, none is lost, and the severity query partitions them.",
 ["inputs"], "every detection site in the reader and every value it can report, and every history of reports",
 "Most of the ~120 diagnostics are raised by no test; a wrong placeholder only shows when that diagnostic is raised.",
 ["brel/errors/error_factory_registry.py", "brel/errors/error_code.py", "brel/errors/error_instance.py", "brel/data/errors/error_repository.py", "brel/data/errors/in_memory_error_repository.py", "brel/parsers"],
 [("registry", "brel/errors/error_factory_registry.py"), ("creation and storage", "brel/data/errors/error_repository.py")])

prop("C21", "Taxonomy declarations become the right kind of report element",
 "Every named element declaration of the taxonomy becomes a concept, abstract, line items, hypercube, dimension or member exactly as its abstract flag, substitution group, type and name prescribe, under its qualified name and identifier, or is not a report element at all. A concept carries exactly the declared data type, period type, balance and nillability; invalid declarations are diagnosed; a dimension is typed exactly when its declaration refers to a domain type.",
 ["inputs"], "every combination of declaration attributes",
 "Tests see only the declarations of a few fixed taxonomies and never check the classification.",
 ["brel/parsers/XML/xml_report_element_factory.py", "brel/parsers/XML/xml_report_element_parser.py", "brel/reportelements/concept.py", "brel/reportelements/dimension.py"],
 [("classification", "brel/parsers/XML/xml_report_element_factory.py:create"), ("attributes", "brel/reportelements/concept.py")])

prop("C22", "Components tie each role to its own networks",
 "There is exactly one component per declared role, with the role's definition text and precisely the presentation, calculation and logical definition network that was read for that role (none when there is none). Ambiguous networks and networks of a kind the role does not declare are diagnosed, and a component reports having a network exactly when it can return it.",
 ["inputs"], "every set of role declarations, used-on declarations and networks",
 "Tests only check that components exist.",
 ["brel/parsers/XML/xml_component_parser.py", "brel/brel_component.py", "brel/data/network/in_memory_network_repository.py"],
 [("assembly", "brel/parsers/XML/xml_component_parser.py:parse_component_from_xml")])

prop("C23", "Footnotes stay attached to the facts they annotate",
 "Every footnote relationship of a report (XML footnote links or inline relationships) appears in a footnote network as a link from the named fact to the named footnote or fact, under its own link role and arcrole and with its order, and no other relationships appear. Footnotes keep their text, language and role; relationships with unknown ends, missing language or invalid roles are diagnosed without aborting the report.",
 ["inputs"], "every set of footnotes and relationships, with several arcroles, missing orders, dangling references",
 "No test has footnotes.",
 ["brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py", "brel/parsers/XML/networks/xml_footnote_network_factory.py", "brel/networks/footnote_network_node.py", "brel/resource/brel_footnote.py"],
 [("inline relationships", "brel/parsers/XHMTL/networks/xhtml_parse_footnote_network.py"), ("XML footnote links", "brel/parsers/XML/networks/xml_footnote_network_factory.py")])

prop("C24", "Periods, units, entities and dimensions behave as values",
 "A period is an instant or a duration with exactly the dates it was given (never ending before it starts), a unit has exactly the numerator and denominator measures it was given and is simple exactly when it has one numerator and no denominator; the accessors of the other kind fail. Two characteristics are equal exactly when they denote the same thing, equal ones hash alike, and each prints and exports exactly its own content.",
 ["inputs"], "all dates, measure lists, identifiers, dimensions and members",
 "Five tests construct one characteristic of each kind.",
 ["brel/characteristics/period_characteristic.py", "brel/characteristics/unit_characteristic.py", "brel/characteristics/entity_characteristic.py", "brel/characteristics/concept_characteristic.py", "brel/characteristics/explicit_dimension_characteristic.py", "brel/characteristics/typed_dimension_characteristic.py"],
 [("value classes", "brel/characteristics/*.py")])

prop("C25", "Exported dictionaries and rows mirror the objects",
 "The dictionary form of a fact, context, network, node, report element, component or label contains exactly the information of that object under the documented (or translated) keys, recursively and in order, and exporting has no effect on the object.",
 ["inputs"], "every object of those kinds, with and without translation",
 "No test exports anything.",
 ["brel/brel_fact.py", "brel/brel_context.py", "brel/brel_component.py", "brel/networks/i_network.py", "brel/networks/i_network_node.py", "brel/reportelements", "brel/resource"],
 [("convert_to_dict", "brel/**")])

prop("C26", "Opening a report picks the right reader, files and filing",
 "A report is read by the XML reader when all its files are XML or schema files, by the inline reader when inline files are among them, and is refused otherwise; a folder or archive contributes exactly its report files. Asking EDGAR for a filing picks the most recent one of the requested form that is available as XBRL and, if a date is given, has that report date; if there is none, or an argument is malformed, it is refused.",
 ["inputs"], "every list of file names, folder content and submission index",
 "No test covers the selection logic.",
 ["brel/parsers/filing_parser_factory.py", "brel/parsers/path_loaders", "brel/services/xml/xml_file_parser_resolver.py", "brel/utils/edgar.py"],
 [("selection", "brel/parsers/filing_parser_factory.py"), ("loaders", "brel/parsers/path_loaders/*.py"), ("EDGAR", "brel/utils/edgar.py:open_edgar")])

prop("C27", "Malformed instance data is isolated and diagnosed",
 "A context, unit, period, entity, dimension or fact of a report that is malformed (missing or invalid parts, dangling or unresolvable references) is reported with a diagnostic naming the problem and does not prevent the report from being opened. Every well-formed fact of the same report is still extracted exactly as it would be without the malformed ones.",
 ["inputs", "fault_sequences"], "every combination of malformed and well-formed instance parts in any order",
 "Tests only open well-formed filings.",
 ["brel/parsers/XML/xml_facts_parser.py", "brel/parsers/XML/xml_context_parser.py", "brel/parsers/XML/characteristics", "brel/errors/error_code.py"],
 [("early returns with diagnostics", "brel/parsers/XML/**")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
