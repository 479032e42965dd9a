"""Source of properties.jsonl and MANIFEST.json: `/opt/venv/bin/python tools/props.py` rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ELEMENT = "src/autosar/xml/element.py"
READER = "src/autosar/xml/reader.py"
WRITER = "src/autosar/xml/writer.py"
ENUMS = "src/autosar/xml/enumeration.py"
DOCUMENT = "src/autosar/xml/document.py"
WORKSPACE = "src/autosar/xml/workspace.py"
TEMPLATE = "src/autosar/xml/template.py"
REFERENCE = "src/autosar/xml/reference.py"
MODEL = "src/autosar/model/implementation.py"
TYPEGEN = "src/autosar/generator/type_generator.py"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append({"id": pid, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                              "observe_at": observe or ["public API of the library"], "hook_needed": None},
                  "technique": technique, "note": note})


prop("C01", "Written XML contains exactly what was set, in schema order",
     "For every supported element and every combination of values that its constructors accept, the written XML consists "
     "of exactly the tags and attributes that the AUTOSAR schema gives to the members that were set, each with its own "
     "value, in the order of the schema and nested under the right container. Members that were not set leave no trace, "
     "and nothing that was set is dropped, duplicated or moved to another member.",
     ["inputs"], "all element types, all subsets of their members, all nestings, all schema versions 48 to 51",
     "The tests write one member at a time with one or two values; combinations of members, nested elements, and every "
     "pair of neighbouring members are never sampled together.",
     [WRITER, ELEMENT, ENUMS], [("one write method per element type", WRITER),
                                ("constructors that store the members", ELEMENT)],
     "reference-model oracle on recorded writer output",
     "Every supported type with every member alone and in random combinations; trusts the reference model of the schema "
     "in arv/model.py.", ["Writer.write_str_elem", "Writer.write_str"])

prop("C02", "Reading supported XML yields every value, in the right member",
     "Reading the XML of any supported element yields an object of the corresponding class in which every member present "
     "in the XML holds its value, lists keep their document order, and members absent from the XML are unset or empty. "
     "No supported content is skipped, misplaced or reported as unsupported.",
     ["inputs"], "all element types, all subsets of their members, all nestings, pretty-printed and dense layout",
     "The tests read XML that the writer under test produced for one member at a time; a mistake shared by reader and "
     "writer, or one that depends on a combination of members, is invisible to them.",
     [READER, ELEMENT, ENUMS], [("one read method per element type", READER), ("child element cursor", READER)],
     "reference-model oracle on the attributes of read objects",
     "XML is produced by the reference model alone, never by the writer under test.",
     ["Reader.read_str_elem"])

prop("C03", "Documents survive writing and reading, for every schema version",
     "A document written to a file or a string and read back has the same package tree, the same elements in the same "
     "order with the same values, and the same schema version; writing it again gives the same bytes. This holds for "
     "every supported schema version, whether the package, document or writer objects were used before or not. An element "
     "that cannot be written makes the call fail; it is never left out. (A number text in scientific notation may come back "
     "in decimal notation.)",
     ["inputs", "configurations"], "all documents built from supported elements, routes file/string, versions 48 to 51, "
     "line endings and encodings of the file that XML allows",
     "No test reads and writes a whole document with several kinds of elements; schema versions other than the default "
     "are hardly sampled.",
     [DOCUMENT, READER, WRITER], [("document write and read", WRITER), ("document reader", READER)],
     "round-trip monitor with reference-model oracle",
     "Random documents of up to several dozens of elements of all collectable types.",
     ["Writer.write_file", "Writer.write_str", "Reader.read_file", "Reader.read_str"])

prop("C04", "Any text is written as well-formed XML and comes back unchanged",
     "Whatever characters a text value holds (markup, quotes, entities, white space at its ends, line breaks, any Unicode "
     "that XML can represent), the written file is well-formed XML, an independent XML parser sees exactly that text, and "
     "reading it back yields exactly that text. The text of one value never influences another value.",
     ["inputs"], "all text members of all supported elements, all strings of XML characters",
     "The tests use plain words; each kind of character in each of some hundred text members is beyond examples.",
     [WRITER, READER], [("escaping of character data and attributes", WRITER), ("mixed content reader", READER)],
     "independent-parser oracle on hostile text",
     "Independent parser is lxml (expat rules); names and paths are kept in their schema alphabet.",
     ["Writer.write_str_elem", "Reader.read_str_elem", "Reader.read_file"])

prop("C05", "Enumeration values and XML texts correspond one to one at every place",
     "At every place where an element holds an enumeration value, each value is written as the text the AUTOSAR schema "
     "defines for it and is read back as the same value, at every schema version that has it. A text that is not a value "
     "of the enumeration is rejected, and a value that a schema version does not have yet is refused with an error.",
     ["inputs", "configurations"], "all enumerations, all members, all places that use them, versions 48 to 51, all "
     "non-member texts",
     "The tests sample a few values of some enumerations; a swapped or missing entry elsewhere stays unseen.",
     [ENUMS, READER, WRITER], [("value to XML maps", ENUMS), ("XML to value maps", ENUMS)],
     "exhaustive enumeration with reference table oracle",
     "Exhaustive over places x values x versions; random for wrong texts.",
     ["Writer.write_str_elem", "Reader.read_str_elem"])

prop("C06", "Numbers and booleans survive exactly, in every notation",
     "Integers of any size, floating point numbers and booleans are written so that an independent reader gets exactly "
     "the same value, and the written form is one the AUTOSAR schema allows. Reading accepts every notation the schema "
     "allows (decimal, hexadecimal, binary, octal, exponent, INF, NaN) and yields the exact value. A text "
     "that cannot be understood as a number (such as a word), or as a boolean (other than true, false, 1, 0), is refused or "
     "reported; it is never read as some value silently.",
     ["inputs"], "all numeric and boolean members, all integers, all IEEE doubles, all notations",
     "The tests use small decimal numbers.",
     [WRITER, READER, ELEMENT], [("number formatting", WRITER), ("number parsing", READER)],
     "exact-value oracle on boundary and random-bit numbers",
     "Equality of value is exact (integers) or bitwise (doubles).",
     ["Writer.write_str_elem", "Reader.read_str_elem"])

prop("C07", "Unsupported or broken parts of a file cost only themselves and are reported",
     "Reading a file that contains elements that are unknown to the library or misplaced, or an element that is broken, yields everything "
     "else of the file exactly as without them, and what could not be read is reported, with the file and the line "
     "where it starts; with stop-on-error it raises exactly when something was lost. Where there can be one element only, the "
     "first counts and any other is reported. Comments, processing instructions, "
     "CDATA sections, character references, namespace prefixes, the notation of the schema location, and white space between "
     "elements change nothing.",
     ["inputs", "fault_sequences"], "all documents, all places of unsupported elements, all single damaged elements",
     "The tests never read unsupported or damaged content.",
     [READER], [("collection of child elements", READER), ("error handling of the document reader", READER)],
     "fault injection with reference-model oracle",
     "Damages: unknown tags, wrong enumeration texts, wrong numbers, missing mandatory parts, duplicates.",
     ["Reader.read_file", "Reader.read_str"])

prop("C08", "Package trees have unique names and every path finds exactly its object",
     "Names are unique inside a package (and among the packages of a document or workspace): appending an object whose "
     "name is taken is refused and changes nothing. The reference that an object inside the tree returns is its path from "
     "the root, and looking up a path (with find, or with the path split over several levels) gives exactly the one "
     "object that has it, or None when there is none; this includes objects nested in elements (ports, data elements, "
     "runnables, modes, ...), and objects that belonged elsewhere before they were appended. The elements that filter and "
     "filter_regex give are those whose names match, in their order. make_packages creates what is missing and reuses what exists, for any mixture of paths.",
     ["inputs", "histories"], "all package trees, all paths into them, all histories of append/create/find",
     "The tests look up a handful of fixed paths in small trees and never append conflicting names to bigger ones.",
     [ELEMENT, "src/autosar/xml/document.py", "src/autosar/xml/workspace.py", "src/autosar/xml/base.py"],
     [("Package.append/find/make_packages", ELEMENT), ("PackageCollection", ELEMENT),
      ("find methods of elements that own others", ELEMENT)],
     "online monitor of every tree operation against a reference model of the tree",
     "Histories of random operations with a model checked after each one; complete walks of generated trees.",
     ["Package.find", "Document.find", "Workspace.find", "Package.append", "make_packages", "ref()"])

prop("C09", "References are typed: members hold only fitting ones, path and kind survive",
     "A reference can only be made for a destination kind that its class accepts. A member that holds a reference takes a "
     "reference it can hold, or a path where the destination kind is unambiguous, and keeps path and kind; anything else "
     "is refused with an error and never stored or silently dropped, both when the object is made and when its XML is "
     "read. The reference that an object makes of itself names the kind of that object.",
     ["inputs"], "all reference classes, all destination kinds, all members that hold references, all kinds of values",
     "The tests give each member one well-formed reference of the right class.",
     ["src/autosar/xml/reference.py", ELEMENT, READER],
     [("reference classes", "src/autosar/xml/reference.py"), ("assignment of reference members", ELEMENT),
      ("reading of references", READER)],
     "exhaustive offering of values to every reference member with a reference table oracle",
     "Exhaustive over class x destination kind and member x kind of value; paths are random.",
     ["constructors", "ref()", "Reader.read_str_elem"])

prop("C10", "Constructor and append arguments are held or refused, never silently ignored",
     "An argument of a constructor or of an append method that should be an element, an enumeration value or a list of "
     "them is held as given when it fits. When it is of another kind, an error is raised by the call, or at the latest "
     "when the element is written; it is never silently ignored, and never written as something else. A refused append "
     "leaves the element unchanged. Appending items one at a time gives the same element as passing them all to the "
     "constructor.",
     ["inputs", "histories"], "all classes, all members that hold elements or enumerations, all kinds of values, all "
     "histories of appends",
     "The tests pass well-formed arguments only.",
     [ELEMENT], [("constructors", ELEMENT), ("append methods", ELEMENT)],
     "exhaustive offering of values to every member, and model comparison after random histories of appends",
     "Exhaustive over member x kind of wrong value; random for histories.",
     ["constructors", "append methods", "Writer.write_str_elem"])

prop("C11", "Values built from Python data have the data's shape, order, labels and values",
     "make_value, make_value_with_check, make_constant and the init_value argument of the com-spec factories turn "
     "Python data of any nesting into the corresponding value specification: numbers become numerical values, texts text "
     "values, None a not-available value, lists marked A/ARRAY or R/RECORD (any case) array or record values with the same "
     "number and order of items, and tuples give their label (and default pattern) to exactly the value they wrap. The "
     "data is left unchanged, ready-made values are taken as they are, constant references are wrapped, and None as an "
     "init value means none. Data that corresponds to no value is refused at any depth, never partly used.",
     ["inputs"], "all nestings of numbers, texts, None, marked lists and labelled tuples; all kinds of wrong data at every "
     "depth; all five entry points",
     "The tests build one or two small values; depth, labels on nested items and damaged inner items are not sampled.",
     [ELEMENT, WRITER], [("recursive builder from data", ELEMENT), ("com-spec factories", ELEMENT)],
     "model of the data compared with the built objects, with their XML and with what is read back",
     "Random nested data to depth 5; trusts the data-to-value rules written in the docstring of make_value.",
     ["ValueSpecification.make_value", "ConstantSpecification.make_constant", "Writer.write_str_elem"])

prop("C12", "Namespaces and templates create each element once, in place, after dependencies",
     "A namespace maps every role and custom key to the package path that its (absolute) base reference and relative or "
     "absolute path stand for, the same from calls and from a configuration file; a namespace made again "
     "replaces the earlier one; unknown names and configuration keys are refused. A package map gives, for every key, the "
     "package at its path, and adds and finds elements there until another map replaces it. Applying a template creates its "
     "element at most once, in the package of its role, after all elements it depends on exist, with exactly those passed "
     "by reference and with the caller's arguments; applying it again, directly or as a dependency of others, yields the "
     "same element. A failing create method or a wrong result is reported and leaves no element behind, and a later "
     "attempt works.",
     ["inputs", "histories"], "all namespaces, package maps, dependency graphs, elements made before by other means, "
     "failing create methods, and orders of calls",
     "Templates have no unit tests at all; the examples apply each template once in a fixed order.",
     [WORKSPACE, TEMPLATE, ENUMS], [("role lookup", WORKSPACE), ("apply and dependency creation", WORKSPACE)],
     "log of create calls of instrumented templates checked against the expected order, and package tree after each call",
     "Random acyclic graphs of up to 8 templates; trusts the path rules of POSIX for relative paths.",
     ["Workspace.apply", "Workspace.get_package_ref_by_role", "Workspace.create_package_map"])

prop("C13", "Workspace documents hold exactly the configured content, each in its place",
     "Writing the documents of a workspace makes exactly the configured files under the document root. A document holds "
     "the whole of each of its packages, at the path the package has in the workspace, and nothing else; a package mapping "
     "makes one file per element of the given types, with that element and those whose names have one of the suffixes, at "
     "the path of the package, sorted by name. The files have the requested schema version. Writing changes nothing in the "
     "workspace: every element keeps its place, its reference and its parent, and writing again gives the same bytes, or "
     "the content of that moment. Configuration from calls and from a file is equivalent. A package that does not exist "
     "(yet) is left out of its documents, and its mapping makes no file; the path of something that isn't a package is refused.",
     ["inputs", "histories", "configurations"], "all workspaces, sets of documents and mappings, schema versions, ways to "
     "configure, and repetitions",
     "Writing documents has no unit tests; the examples write once and nobody reads the files.",
     [WORKSPACE, DOCUMENT, WRITER], [("documents from configuration", WORKSPACE), ("package to document mapping", WORKSPACE)],
     "model comparison of every file written, and snapshots of the workspace before and after",
     "Random workspaces of up to three root packages and two levels of sub-packages.",
     ["Workspace.write_documents", "files", "Workspace.find"])

prop("C14", "Ports made from an interface carry it, and one com-spec per named element",
     "Creating a provide-, require- or provide-require-port for a port interface appends exactly one port to the "
     "component, referring to that interface by path and kind. Com-spec settings give one com-spec per named element, of "
     "the class that the side, the kind of interface and the queuing of the element ask for, with a reference to the "
     "element, exactly the given settings, and in the order of the interface; ready-made com-specs are kept as they are. "
     "Settings for elements that do not exist, of the wrong kind or side, or given twice are refused and leave the "
     "component unchanged. Ports and the elements of their interfaces are found by name, and only by the queries that fit "
     "their kind.",
     ["inputs", "histories"], "all kinds of ports and interfaces, numbers of elements, forms of com-spec arguments (and "
     "wrong ones), and sequences of ports",
     "The tests create one port per interface with one or two settings each.",
     [ELEMENT], [("com-specs from a port interface", ELEMENT), ("create_p_port, create_r_port, create_pr_port", ELEMENT)],
     "model comparison of ports, com-specs and their XML after every call",
     "Random settings for every com-spec class; the interfaces belong to the workspace.",
     ["SwComponentType.create_p_port", "SwComponentType.create_r_port", "SwComponentType.create_pr_port"])

prop("C15", "Composition connectors join exactly the ports named, in the right roles",
     "In a composition that belongs to the workspace, create_component_prototype adds one prototype that refers to the given "
     "component type, named as asked or like the type. create_connector finds the ports named 'component/port' or 'port' and "
     "adds exactly one connector that refers to those ports and prototypes: an assembly connector from the providing to the "
     "requiring component (whatever the order of the arguments), a delegation connector between an inner and an outer port of "
     "the same direction, or a pass-through connector (two provide-require ports are "
     "refused, or joined either way); named after components and ports. All its references resolve in the "
     "workspace. Unknown names, references of another form, two ports of the same role (or of opposite direction in a "
     "delegation) and a name that is already taken raise ValueError and leave the composition unchanged.",
     ["inputs", "histories"], "all kinds and places of the two ports, orders, names (also those of other members), nested "
     "compositions, sequences of components, ports and connectors, and requests that must be refused",
     "There is no test for create_connector; one example makes one assembly and two delegation connectors.",
     [ELEMENT], [("CompositionSwComponentType.create_connector", ELEMENT),
                 ("CompositionSwComponentType.create_component_prototype", ELEMENT)],
     "model comparison of the composition and its XML after every step, and resolution of every reference",
     "The composition belongs to the workspace; provide-require ports are not joined with one another.",
     ["CompositionSwComponentType.create_connector", "CompositionSwComponentType.create_component_prototype"])

prop("C16", "Runnables and events of a behavior are as asked for, with unique event names",
     "In the internal behavior of a component that belongs to the workspace, create_exclusive_area and create_runnable add one "
     "area or runnable with exactly the given settings (the symbol is the name unless another one, or None, is given; names in "
     "can_enter_leave become references to the areas of that behavior). Every create_*_event call adds one event of its class "
     "that starts the named runnable and refers to the named port of the right direction and to the data element, operation, "
     "mode group or mode(s) of its interface, with the given settings. It is named as asked, or by the prefix in the behavior "
     "settings, the runnable and (if there are any) port and element; names of events stay unique: on a clash the documented "
     "numbering applies, and no other event is renamed. Unknown runnables, areas, ports, elements or settings, ports of the "
     "wrong direction or kind, references of another form, and missing prefixes are refused and leave the behavior unchanged. "
     "Behavior settings hold what calls or a configuration file gave them last; unknown ones are refused.",
     ["inputs", "histories"], "all event calls, kinds of ports, forms of the arguments, prefixes and names (with clashes), "
     "sequences of calls, and calls that must be refused",
     "The tests make one event per call with one prefix, and one clash of three events.",
     [ELEMENT], [("SwcInternalBehavior.create_*_event, create_runnable", ELEMENT), ("make_unique_name_in_list", ELEMENT)],
     "model comparison of the whole behavior after every call, and of its XML",
     "Component, ports and interfaces belong to the workspace; data send/write completed events are not implemented.",
     ["SwcInternalBehavior.create_runnable", "SwcInternalBehavior.create_timing_event"])

prop("C17", "Port access points and port API options name exactly the asked ports",
     "For a runnable of a component that belongs to the workspace, create_port_access adds for every given text, or pair of "
     "text and settings, exactly one access point: of the kind that the prefix (any letter case), the direction of the port and "
     "its interface ask for (argument, value, read, write, send; synchronous and asynchronous call; mode access and switch; "
     "parameter), in the matching list, referring to the named port and element of its interface (the only one when none is "
     "named), with the given settings, named as asked or prefix_port_element; numbers are appended only where names in a list "
     "clash, and names stay unique. create_port_api_options gives each named port ('*': every port) one option with exactly the "
     "given settings, replacing its earlier one, in order of the port names. Unknown ports, elements, prefixes and settings, "
     "prefixes that the port does not allow and missing name prefixes are refused and leave the behavior unchanged, also when "
     "they are among valid ones; arguments are never modified.",
     ["inputs", "histories"], "all prefixes, kinds of ports and interfaces, forms of the arguments, settings, names (with "
     "clashes), sequences of calls, and calls that must be refused",
     "The tests make one access of each kind on a fresh runnable, without clashes, refusals or repeated options.",
     [ELEMENT], [("RunnableEntity.create_port_access", ELEMENT), ("SwcInternalBehavior.create_port_api_options", ELEMENT)],
     "model comparison of the whole behavior after every call, and of its XML",
     "Component, ports and interfaces belong to the workspace.",
     ["RunnableEntity.create_port_access", "SwcInternalBehavior.create_port_api_options"])

prop("C18", "The implementation model mirrors the data types, dependencies first",
     "create_from_ref and create_from_element make, for base types and implementation data types of category VALUE, "
     "TYPE_REFERENCE, ARRAY, STRUCTURE and DATA_REFERENCE, exactly one model object each and one for everything they are built "
     "from: with the reference, name, native declaration, symbol (the name when there is none), type emitter, array size and "
     "array properties, and elements in the order of the workspace, linked to the objects of the types they name; asking again "
     "gives the same object. The sources are exactly those asked for as sources, whatever was created before. The dependency "
     "trees have one root per source, in order of the references, whose nodes have the types needed for a declaration as "
     "children; the creation order of a root yields each of its nodes once, every type after all that it needs, the root last. "
     "Unknown references, and types that name unknown or unsupported types, are refused and don't become part of the model.",
     ["inputs", "histories"], "all graphs of types (shared, deep), options of the types, orders of creation, as source or "
     "dependency, by reference or element, and types that must be refused",
     "The tests create single types with at most two dependencies, once, without array properties or refusals.",
     [MODEL], [("ImplementationModel", MODEL), ("ImplementationModel.get_type_creation_order", MODEL)],
     "comparison with a reference model after every call, and of trees and creation order",
     "No type depends on itself; arrays have one dimension; dependency trees of pointers are not implemented.",
     ["ImplementationModel.create_from_ref", "ImplementationModel.create_from_element",
      "ImplementationModel.gen_type_dependency_trees", "ImplementationModel.get_type_creation_order"])

prop("C19", "The type header declares the needed types once, in order, and compiles",
     "The header written by TypeGenerator declares each source type of the implementation model and each type it needs exactly "
     "once and before its use, with the C name that its symbol or name gives: native base types, aliases, arrays of the given "
     "size, and structures with exactly the given members in order, of the right types (elements of category VALUE use the "
     "native declaration of their base type where there is one). Base types without native declaration and types with another "
     "type emitter than RTE are not declared; nothing else is. Given an Rte.h with the types from elsewhere, the header is valid "
     "C and C++, and every type has the declared size and members. The file is Rte_Type.h in the given folder, its text is the "
     "same as write_type_header_str gives, contains write_type_defs_str, follows gen_data_type_creation_order, and is the same "
     "every time.",
     ["inputs", "histories"], "all graphs of types, symbols, emitters, native declarations, sets and orders of sources",
     "The tests compare the declarations of single types as text; no test looks at the header, or compiles it.",
     [TYPEGEN], [("TypeGenerator", TYPEGEN)],
     "parsing of the declarations against a reference model, and compilation of the headers with assertions about the types",
     "Distinct names that are no keywords; pointer and union types are not implemented; arrays have one dimension.",
     ["TypeGenerator.write_type_header_str", "TypeGenerator.write_type_defs_str",
      "TypeGenerator.gen_data_type_creation_order"])

prop("C20", "Members created in interfaces, operations and mode groups are as asked",
     "In sender-receiver, NV-data, parameter, client-server and mode-switch interfaces, client-server operations and mode "
     "declaration groups, every create_* call (data element, parameter, operation, argument of each direction, possible error "
     "and reference to one, invalidation policy, mode group, mode) adds exactly one member at the end of its list, or sets the "
     "one mode group, with exactly the given name and settings, and returns that very object; append_* calls add the given "
     "object. Its parent is the owner, and its reference is the path of the owner followed by its name as soon as the owner "
     "belongs to a package (None before). No other member changes, arguments are never modified, and wrong settings, values of "
     "a wrong type and unknown arguments are refused and leave the owner unchanged. The XML has exactly these members in order.",
     ["inputs", "histories"], "all owners, calls, settings, forms of the arguments, sequences of calls before and after the "
     "owner gets into a package, and calls that must be refused",
     "The tests create one or two members per interface with few settings, and look at their XML.",
     [ELEMENT], [("create_* and append_* of the port interfaces, ClientServerOperation and ModeDeclarationGroup", ELEMENT)],
     "model comparison of the whole owner after every call, and of its XML",
     "Names of members are distinct; the whole of each element's settings is generated.",
     ["SenderReceiverInterface.create_data_element", "ClientServerInterface.create_operation",
      "ModeDeclarationGroup.create_mode_declaration", "ModeSwitchInterface.create_mode_group"])

prop("C21", "Value tables, rational computations and constraints have the given content",
     "make_value_table gives one constant scale per element in order: the text alone takes its position as both limits, a pair "
     "its number, a triple its two limits (all closed); texts become labels too, unless auto_label is off. make_rational gives "
     "one rational scale with numerator (offset, factor), denominator 1 and exactly the given limits and interval types; "
     "default values become the constant of the inverse. DataConstraint.make_physical and make_internal give one rule with "
     "exactly the given limits, interval types and other settings. The XML says the same. check_value is true exactly for the "
     "values within the limits (a closed limit belongs to the range, an open one does not, a missing one restricts nothing), "
     "for whole numbers of any size and floats. Tuples of another length and data of other types are refused, and arguments "
     "are never modified.",
     ["inputs"], "all lists of texts, pairs and triples, numbers, limits, interval types and default values, and values at, near "
     "and off the limits",
     "The tests make four tables, one rational computation and few constraints; no test calls check_value.",
     [ELEMENT], [("Computation.make_value_table, Computation.make_rational", ELEMENT),
                 ("DataConstraint.make_physical, make_internal", ELEMENT), ("LimitObject.check_value", ELEMENT)],
     "model comparison of the objects and their XML, and of check_value with exact arithmetic",
     "Limits are numbers or missing; NaN is left out.",
     ["Computation.make_value_table", "Computation.make_rational", "DataConstraint.make_physical",
      "DataConstraint.make_internal", "LimitObject.check_value"])

prop("C22", "Writing and reading repeat exactly, without side effects",
     "Writing an element or document never changes it or anything it refers to, and gives the same text every time: by a new or "
     "a used writer, as string or file, after other elements, after documents of other schema versions, and after writes that "
     "failed. Reading the same text gives an "
     "equal result every time: by a new or a used reader, from string or file, after other texts and after texts that were "
     "refused; objects that were read before are not changed. Objects that are built or read apart share no mutable state "
     "(workspaces, documents, packages, behaviors, and elements of every class): changing one never changes another. Readers "
     "and writers in parallel threads give the same as alone. What is created, written and generated doesn't depend on the "
     "hash seed of the process.",
     ["inputs", "histories", "schedules"], "all elements and documents, orders of reading and writing, failures between, thread "
     "schedules and hash seeds",
     "Every test uses a new reader and writer, once, in one process and thread.",
     [WRITER, READER, ELEMENT], [("Writer", WRITER), ("Reader", READER), ("constructors", ELEMENT)],
     "comparison of texts, pictures of the object graphs and identities of mutable objects over histories, threads and processes",
     "Each thread has its own reader and writer.",
     ["Writer.write_str", "Writer.write_file", "Writer.write_str_elem", "Writer.write_file_elem", "Reader.read_str",
      "Reader.read_file", "Reader.read_str_elem"])

prop("C23", "What was read from files can be used like what was just built",
     "Writing the packages of a workspace at any time to one or several documents, reading them, adding what was read to a new "
     "workspace, and going on there gives the same as going on without the break: objects, ports, interfaces and their members "
     "are found at the same paths, references (including those that were created before) resolve, templates return what is "
     "there instead of creating it again, ports, connectors, runnables, events, access points and interface members are added "
     "with the names, references and refusals that fit everything that was read, limits accept the same values, and the "
     "implementation model and type header are those of the same data types. Behavior settings and namespaces aren't part of "
     "documents and are set again.",
     ["inputs", "histories"], "all histories of calls of C12 and C14 to C21, interrupted at any point by writing and reading, for all "
     "ways to distribute packages to documents",
     "Tests check either what was built in memory or what was read, and never use what was read to go on.",
     [ELEMENT, READER, WORKSPACE, WRITER], [("Reader", READER), ("Package.find", ELEMENT), ("Workspace.create_document", WORKSPACE)],
     "the reference models of C12 and C14 to C21 over histories with writing and reading between",
     "Empty TYPE-EMITTER and the difference between 5 and 5.0 aren't kept by ARXML and not expected.",
     ["Reader.read_str", "Reader.read_file", "Writer.write_str", "Workspace.write_documents", "PackageCollection.append",
      "PackageCollection.find"])

prop("C24", "Writing that fails is reported and spares the files that are there",
     "When a document, an element, or one of the documents of a workspace can't be written, because its content has no XML form "
     "(elements of unknown classes, values of a wrong type, values the schema version doesn't have, texts that can't be "
     "encoded), the call raises an error, and every file holds what it held before or the complete new text; no partial or "
     "empty file appears, and none is left open. When the system refuses the file (no directory, a directory in "
     "its place, no space), the call raises an error too. Afterwards the objects are as before, and once the cause is gone, the "
     "same writer or workspace writes everything completely. A reading that fails is reported and leaves file and reader intact.",
     ["inputs", "fault_sequences", "histories"], "all documents and workspaces, all places of what can't be written, all states of the files, all "
     "histories of failing and succeeding calls",
     "The tests never let writing fail.",
     [WRITER, WORKSPACE], [("Writer.write_file", WRITER), ("Writer.write_file_elem", WRITER),
                           ("Workspace.write_documents", WORKSPACE)],
     "fault injection with a model of the directory, the open files of the process and the package trees",
     "What the file itself holds after the system ran out of space, and the order in which a workspace writes, are left open.",
     ["Writer.write_file", "Writer.write_file_elem", "Workspace.write_documents", "Reader.read_file"])

prop("C25", "Programs keep their results: the shipped examples write the shipped documents",
     "Every program below examples, and the one in README.md, runs to its end, from any working directory and with any hash "
     "seed, locale or optimisation of the interpreter, and writes the documents that are shipped with it, byte for byte: into "
     "an empty folder as well as over the files of an earlier run, and nothing elsewhere. What it prints is the same each "
     "time. Every document it writes is read back without messages, and written again as the same bytes. Programs are "
     "independent: they share no files but those of their own folder.",
     ["configurations", "histories"], "all shipped programs, working directories, states of the folder, and environments of the process",
     "The tests never run the examples, and nobody compares the files they write.",
     [WORKSPACE, TEMPLATE, WRITER, ELEMENT], [("documents", WORKSPACE), ("templates", TEMPLATE), ("document text", WRITER)],
     "processes in scratch copies; model of the folder; byte comparison with the shipped documents and re-reading",
     "A file several programs write is the one of the last in run_examples.sh. Needs the folder examples in the repository.",
     ["Workspace.apply", "Workspace.write_documents"])

prop("C26", "Independent workspaces, documents, readers and writers don't affect each other",
     "What a program does with its own workspace, document, package tree, implementation model, reader or writer gives the same "
     "results, errors and files whether it runs alone or interleaved, at any point inside of any call, with another one in the "
     "same process (in other threads), and whatever was done with other objects before; also if both use the same names, paths, "
     "settings and texts.",
     ["schedules", "histories"], "all pairs and triples of histories, all places of switches inside of the library",
     "Each test uses one workspace at a time and never switches inside of a call.",
     [WORKSPACE, ELEMENT, READER, WRITER, MODEL], [("workspace state", WORKSPACE), ("writer state", WRITER), ("reader state", READER)],
     "controlled interleaving of monitored histories; failures are repeated alone in a fresh process",
     "Objects that are shared by threads are not covered. Switches happen between lines of the library.",
     ["Workspace.__init__", "Reader.read_str", "Writer.write_str"])

prop("C27", "Nothing but the given objects and files is read or changed",
     "Reading a file opens that file only, and leaves it as it is (DTDs, external entities, inclusions, style sheets and schema "
     "locations are not followed, and no content of other files gets into what is read); writing changes the given file only; "
     "loading a configuration, reading and writing texts, building elements and models and generating headers touch no files. "
     "No call, nor loading the library, changes the state of the process: working directory, environment, "
     "locale, decimal context, random generator, recursion limit, warning filters, signal handlers, standard streams, threads, "
     "open files, settings of the XML library. What succeeds without a loss prints nothing.",
     ["inputs", "histories"], "all operations, documents and configurations",
     "The tests look at results only, never at files and process around them.",
     [READER, WRITER, WORKSPACE], [("parsing", READER), ("files", WRITER), ("configuration", WORKSPACE)],
     "audit and file-system event monitors; pictures of process and folders before and after",
     "Loading Python modules when they are needed is not counted.",
     ["Reader.read_file", "Writer.write_file", "Workspace.load_config", "Workspace.write_documents"])

# --- more properties are added above this line


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fp:
        for item in PROPS:
            fp.write(json.dumps({k: v for k, v in item.items() if k not in ("technique", "note")}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import arv.model, arv.harness\"",
        "checks": [{"property": p["id"], "quick_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier quick",
                    "thorough_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier thorough",
                    "technique": "runtime monitoring: " + p["technique"], "level": "exploration",
                    "level_note": p["note"]} for p in PROPS],
        "not_applicable": [],
        "notes": "Pure Python library: no hooks in /repo are needed; every check imports autosar from /repo/src.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fp:
        json.dump(manifest, fp, indent=1)
        fp.write("\n")


if __name__ == "__main__":
    main()
