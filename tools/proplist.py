B="src/kml/base/"; D="src/kml/dom/"; N="src/kml/engine/"; C="src/kml/convenience/"; R="src/kml/regionator/"; X="src/kml/xsd/"
def M(*a): return [{"name": n, "where": w} for n, w in a]
ENUM="exhaustive choice enumeration on the real code (stateless model checking) against a reference model"

prop("P01", "KML documents survive parse and serialize unchanged",
 "Parsing a KML document and serializing the result, pretty or raw, yields well-formed XML that carries the same elements, attributes and values as the original, with repeated children in their original order. Every element, field and attribute of KML 2.2 and the supported extensions takes part, and parsing the output again and serializing it gives the same bytes.",
 ["inputs"], "for all KML documents: every element kind, every field, every value class, every order and repetition of children",
 "tests round-trip a handful of fixed files; per-field, per-combination loss (one field of ~200 dropped, reordered or re-typed) needs all fields times value classes",
 [D+"*.cc", D+"kml_handler.cc", D+"xml_serializer.h", D+"serializer.cc", D+"kml22.cc", D+"xsd.cc", D+"element.cc"],
 M(("element stack driven by expat callbacks", D+"kml_handler.cc"), ("per-class AddElement/Serialize pairs", D), ("schema table", D+"kml22.cc")),
 harness="dom_rt")
prop("P02", "Any text set through the API serializes to XML that reads back equal",
 "For every string valued field, attribute or character data settable through the API, whatever its characters, serialization produces well-formed XML from which parsing recovers exactly that value. No other field of the document changes because of it.",
 ["inputs"], "for all strings of XML characters in all string fields, attributes and data values",
 "tests use a few tame strings; markup characters, section terminators and their combinations form an unbounded input space",
 [D+"serializer.cc", D+"xml_serializer.h", B+"attributes.cc", B+"string_util.cc", D+"kml_handler.cc"],
 M(("quoting of field content", D+"serializer.h"), ("attribute serialization", B+"attributes.cc")))
prop("P03", "Unknown and misplaced content is preserved and does not disturb known content",
 "Inside any KML element that has child elements, elements and attributes not defined by KML, and known elements where KML does not allow them, are kept with their own markup, text and attributes and reappear in the serialized output under the same parent. All valid content around them is parsed exactly as if they were absent. Markup inside a description becomes part of its text.",
 ["inputs"], "for all positions and shapes of foreign content in a document",
 "tests insert unknown content at a few places; interaction of skipping state with every known element and with nested, mixed and escaped content is combinatorial",
 [D+"kml_handler.cc", D+"element.cc", D+"xml_serializer.h"],
 M(("skip depth and raw capture", D+"kml_handler.cc"), ("unknown/misplaced arrays", D+"element.cc")))
prop("P04", "Parsing any bytes terminates safely with either a document or an error",
 "For any input bytes the parser terminates without invalid memory access, and returns a document exactly when the input is well-formed XML whose root is a KML element within the nesting limit; otherwise it returns nothing and a non-empty error message. A failed parse never affects later parses.",
 ["inputs"], "for all byte strings, in particular all truncations and single-point corruptions of documents and all short token sequences",
 "tests parse valid files and a few bad ones; safety is a statement about every input",
 [B+"expat_parser.cc", D+"kml_handler.cc", D+"parser.cc", D+"geometry.cc", D+"element.cc", B+"string_util.cc"],
 M(("expat error reporting", B+"expat_parser.cc"), ("nesting limit", D+"kml_handler.cc")))
prop("P05", "Result of a parse does not depend on how the input is delivered",
 "Delivering a document from a string, from a stream, or in any sequence of buffers yields the same element tree and the same success or failure, wherever the buffer boundaries fall. A namespace-aware parse of a document in the KML namespace yields the same tree as a plain parse.",
 ["inputs","schedules"], "for all documents and all placements of buffer boundaries",
 "tests stream two small files smaller than one buffer; boundary placement inside tokens, text and entities is never varied",
 [B+"expat_parser.cc", N+"kml_stream.cc", D+"kml_handler.cc", D+"kml_handler_ns.cc"],
 M(("buffered expat feeding", B+"expat_parser.cc"), ("stream loop", N+"kml_stream.cc")))
prop("P06", "Parser observers see every element once, in order, and can veto",
 "During a parse each registered observer is told of every complex element exactly once when it starts and once when it ends, and of every child once when it is added to its parent, in document order. An observer refusing a new element or an addition stops the parse with an error, and one refusing an ended element keeps only that element out of its parent.",
 ["inputs","histories"], "for all documents and all points at which an observer refuses",
 "tests count callbacks on one document and refuse at one place",
 [D+"kml_handler.cc", D+"parser_observer.h", D+"parser.cc"],
 M(("observer loops", D+"kml_handler.cc")))
prop("P07", "Coordinate text is read as the tuples it denotes",
 "A coordinates list, whatever whitespace separates its tuples or surrounds its commas, is read as exactly the sequence of longitude, latitude and optional altitude tuples it denotes, and a coordinate list written by the library reads back equal. Text that is not a coordinate list is read in bounded time and memory without inventing values.",
 ["inputs"], "for all coordinate strings over the characters that occur in them",
 "tests use about ten spellings; separators, signs, exponents and missing parts combine freely",
 [D+"geometry.cc", D+"gx_tour.cc", B+"vec3.h", B+"string_util.cc"],
 M(("tuple scanner", D+"geometry.cc")))
prop("P08", "Each field is set, read, tested and cleared independently of all others",
 "For every field of every element, setting it makes it present with exactly that value, clearing it makes it absent with its default value, and neither affects any other field. A field is serialized exactly when it is present, and a newly created element has no field present and KML's default values.",
 ["histories"], "for all element kinds, all fields and all sequences of set and clear operations",
 "tests do one set/clear cycle per field; cross-field effects and repeated sequences are not covered",
 [D+"*.h", D+"element.h", D+"kml_factory.cc"],
 M(("per-field value/presence pairs", D)))
prop("P09", "Element trees: one parent per element, ordered children, exact lifetimes",
 "Under any sequence of adding, replacing, removing and releasing elements, an element has at most one parent, an addition that would give it a second one changes nothing, and children keep their insertion order. Elements live exactly as long as something refers to them.",
 ["histories"], "for all sequences of tree edits up to the bound over a pool of elements",
 "tests add a few children once; ownership errors need particular sequences of edits and releases",
 [D+"element.cc", D+"element.h", D+"container.h", D+"document.h", D+"feature.h", B+"referent.h"],
 M(("parent pointer and SetParent", B+"xml_element.h"), ("child arrays", D+"element.h"), ("reference counts", B+"referent.h")))
prop("P10", "A clone equals its original and shares nothing with it",
 "Cloning any element yields a distinct element whose serialization equals the original's, including ids, repeated children, unknown and misplaced content. No later change to either is visible in the other, and cloning leaves the original unchanged.",
 ["inputs","histories"], "for all elements and all subsequent changes",
 "tests clone a few element kinds without later edits",
 [N+"clone.cc", D+"serializer.h", D+"element.cc"],
 M(("replicating serializer", N+"clone.cc")))
prop("P11", "Merging copies what the source sets and keeps everything else",
 "After a merge every field present in the source has the source's value in the target, every other field of the target is unchanged, each child is merged recursively into the target's first child of the same kind, and a child of a kind the target lacks is copied in, replacing an alternative that occupies a single-valued place. The source is unchanged and shares nothing with the target.",
 ["inputs"], "for all pairs of elements over all subsets of present fields",
 "tests merge a few Style and Placemark pairs",
 [N+"merge.cc", D+"element.cc"],
 M(("merging serializers", N+"merge.cc")))
prop("P12", "Updates change exactly the targeted objects",
 "Applying an update performs its change, create and delete operations in order: a change merges into the object with the target id and leaves that id alone, a create appends copies of the features to the target container, a delete removes the target feature from its container. Operations with unknown targets are ignored, nothing else in the document changes, and the update itself is unchanged.",
 ["histories"], "for all documents and all sequences of update operations up to the bound",
 "tests apply single updates to a few documents; interactions of several operations on one tree are not explored",
 [N+"update.cc", N+"update_processor.cc", N+"id_mapper.cc"],
 M(("update processor", N+"update_processor.cc")))
prop("P13", "Lookup by id, by type and id remapping agree with the document",
 "For any document, looking up an id yields the object with that id (the last such object if the id repeats), shared styles are exactly the styles that are direct children of a document, and searching by type or for descendants yields exactly the matching elements in document order. Clearing or remapping ids changes exactly the ids asked for, and strict import succeeds exactly when no id repeats.",
 ["inputs"], "for all documents with any placement and repetition of ids",
 "tests use unique ids or one duplicate",
 [N+"kml_file.cc", N+"find.cc", N+"id_mapper.cc", N+"object_id_parser_observer.h", N+"shared_style_parser_observer.h"],
 M(("id maps built while parsing", N+"object_id_parser_observer.h"), ("element finder", N+"find.cc")))
prop("P14", "Style resolution yields the documented cascade and always terminates",
 "The resolved style of a feature is the field-by-field overlay of the style its style reference leads to and its inline style over it, following style maps for the requested state through shared, nested and remote styles. Resolution terminates on every graph of references, including cycles, ignores references that lead nowhere and never modifies the document.",
 ["inputs"], "for all reference graphs over shared styles, style maps and inline styles up to the bound",
 "tests resolve fixed files; the graph shapes (cycles, chains, missing targets, both states) are combinatorial",
 [N+"style_merger.cc", N+"style_resolver.cc", N+"merge.cc", N+"shared_style_parser_observer.h"],
 M(("depth bounded merger", N+"style_merger.cc")))
prop("P15", "Inlining and splitting styles preserve what every feature looks like",
 "Inlining replaces each reference to an earlier shared style by a copy of it and splitting moves inline styles of features into uniquely named shared styles, and in both cases the resolved style of every feature in both states, and all other content, is the same before and after.",
 ["inputs"], "for all documents combining shared styles, references, inline styles and containers up to the bound",
 "tests transform a few fixed files and compare text",
 [N+"style_inliner.cc", N+"style_splitter.cc", N+"style_splitter_internal.h", N+"style_inliner_internal.h"],
 M(("style inliner observer", N+"style_inliner.h"), ("style splitter observer", N+"style_splitter.cc")))
prop("P16", "Balloon text expands every entity reference with the feature's own data",
 "Expanding a template replaces every occurrence of a reference to a defined entity by its value and leaves all other text, including references to undefined entities, unchanged. A feature's balloon is its balloon template, or the default layout, expanded with that feature's fields, data and schema data.",
 ["inputs"], "for all templates and entity maps up to the bound, and all features over the balloon related fields",
 "tests expand a few templates with each reference occurring once",
 [N+"entity_mapper.cc", N+"feature_balloon.cc", B+"string_util.cc"],
 M(("string expansion", B+"string_util.cc"), ("entity gathering", N+"entity_mapper.cc")))
prop("P17", "Caches return what the network served, within their size limit",
 "Through any history of requests, deletions and network failures a cache returns the item that was fetched for a URL, asks the network again only when the item is not resident, never holds more items than its limit, evicts the oldest first, and never stores a failure. A relative reference made from inside an archive is looked up in that archive first and then relative to the archive, and items handed out stay valid after eviction.",
 ["histories","fault_sequences"], "for all operation histories up to the bound with every fetch succeeding, failing or serving garbage",
 "tests fill a cache once in order; interleaved deletes, failures and re-fetches are not explored",
 [B+"net_cache.h", N+"kml_cache.cc", N+"kmz_cache.cc", N+"kml_uri.cc", B+"memory_file.h"],
 M(("insertion counter and map", B+"net_cache.h"), ("two-level archive lookup", N+"kmz_cache.cc")),
 harness="cache", technique="explicit enumeration of operation histories with fault injection on the real caches, in lock step with a reference FIFO cache model",
 note="All histories up to the stated depth, capacities and URL alphabet on the real code; beyond those bounds nothing is claimed. Trusts the FIFO reference model and the sanitizers.")
prop("P18", "Written archives read back exactly, by the library and other readers",
 "A KMZ archive written from any set of entries contains exactly those entries in order with exactly their bytes, is a valid ZIP file for an independent reader, and reads back equal through the library. The default document of an archive is its first entry with the KML extension.",
 ["inputs","histories"], "for all sequences of entries (names, sizes, contents) up to the bound",
 "tests write one or two small entries",
 [B+"zip_file.cc", N+"kmz_file.cc", B+"contrib/minizip/unzip.c", B+"contrib/minizip/iomem_simple.c"],
 M(("minizip wrapper", B+"zip_file.cc"), ("memory stream", B+"contrib/minizip/iomem_simple.c")))
prop("P19", "Damaged or hostile archives are read safely",
 "Opening and reading any bytes as an archive terminates without invalid memory access, never returns more than the configured size limit for an entry, and never returns data for an entry whose contents do not match the archive's own checksum and size. Intact entries listed before the damage remain readable.",
 ["inputs"], "for all truncations and all single-field corruptions of archives",
 "tests read two malformed files",
 [B+"zip_file.cc", B+"contrib/minizip/unzip.c", B+"contrib/minizip/iomem_simple.c", N+"kmz_file.cc"],
 M(("bounds in memory stream", B+"contrib/minizip/iomem_simple.c"), ("size limit", B+"zip_file.cc")))
prop("P20", "Archive creation stays inside the archive root and below the base directory",
 "No archive created by the library contains an entry whose path is absolute or leads above the archive root. When local references of a document are archived, only files below the document's directory are read, each under its normalized relative path and once, and every reference that is refused or unreadable is counted as an error.",
 ["inputs"], "for all reference spellings over path segments, dots, slashes and backslashes",
 "tests try three bad paths",
 [B+"zip_file.cc", N+"kmz_file.cc", N+"get_links.cc", N+"href.h", N+"kml_uri.cc"],
 M(("path check", B+"zip_file.cc"), ("reference resolution", N+"kmz_file.cc")))
prop("P21", "File writes report failure and temporary files are private and removed",
 "A successful write or archive creation means the complete bytes are in the file, and a write that cannot be completed, at whatever byte it stops, is reported as failure. Temporary files have unique names, are accessible only to their owner and are gone when released.",
 ["fault_sequences","crash_points"], "for every byte offset at which the file system stops accepting data",
 "tests never make a write fail",
 [B+"file.cc", B+"file_posix.cc", B+"tempfile.h", B+"zip_file.cc", N+"kmz_file.cc"],
 M(("stream state after write", B+"file.cc"), ("zip close status", B+"zip_file.cc")), level="fault_enumeration")
prop("P22", "References resolve as RFC 3986 prescribes",
 "Resolving a reference against an absolute base gives the target RFC 3986 section 5 prescribes, splitting a URI gives exactly its components, and normalization is idempotent and preserves the target. Splitting a reference into an archive gives the archive's address and the path inside it exactly when a path segment has the archive extension.",
 ["inputs"], "for all base and reference strings over URI tokens up to the bound",
 "tests resolve about twenty pairs",
 [N+"kml_uri.cc", B+"uri_parser.cc", N+"href.cc", N+"kml_uri_internal.h"],
 M(("uriparser wrapper", B+"uri_parser.cc")))
prop("P23", "Link discovery finds every link of a document, once, in order",
 "The links reported for a document are exactly the values of its link, icon, style and schema references in document order, relative links are exactly those naming a path without scheme or authority, and link parents are exactly the elements that can carry a link or icon. A check of an archive reports exactly the relative links whose file is missing from it. Malformed documents are reported as errors.",
 ["inputs"], "for all documents placing references at all allowed positions with all reference kinds",
 "tests check two files",
 [N+"get_links.cc", N+"get_link_parents.cc", N+"link_util.cc", N+"href.cc", C+"kmz_check_links.cc"],
 M(("link observer", N+"get_links.h")))
prop("P24", "Bounding boxes contain exactly what they bound",
 "The bounds of coordinates, a geometry, a feature or a container are the tightest box containing every coordinate and model location in it at any depth (a polygon being bounded by its outer boundary), and are reported absent exactly when there is none; its location is the center of that box. Expanding, containment and quadtree alignment of boxes are consistent: the aligned box contains the original and is the smallest quadtree cell that does, down to the depth asked for. The view computed for a feature looks at that center from far enough to see all of it, but never closer than 1000 m.",
 ["inputs"], "for all geometry trees up to the bound and all boxes over a coordinate grid",
 "tests bound one geometry of each kind",
 [N+"bbox.h", N+"location_util.cc", N+"feature_view.cc", C+"feature_list.cc"],
 M(("recursive bounds", N+"location_util.cc")))
prop("P25", "Regionation distributes every feature to exactly one reachable file",
 "Regionating a list of located features writes a tree of files in which every feature appears exactly once, in a file whose region contains it, with at most the requested number per file and higher scores never deeper than lower scores competing for the same region. Every file is linked from its parent with its own region, and a file is linked exactly if it was written. Splitting a feature list moves exactly the located features, in order, up to the limit.",
 ["inputs"], "for all small sets of features over a coordinate grid with all score orders and per-file limits",
 "tests regionate one or two sets and count files",
 [R+"regionator.cc", R+"regionator_util.cc", R+"feature_list_regionator.h", R+"feature_list_region_handler.cc", C+"feature_list.cc"],
 M(("recursive quadtree descent", R+"regionator.cc")))
prop("P26", "CSV lines become the placemarks they describe",
 "Every non-blank line of CSV input is split into its fields honouring quotes and any line ending, and yields in order exactly one report: a placemark carrying that line's name, description, position, id, style and extra columns, or a status saying why not. No line affects another, and processing stops exactly when the handler asks.",
 ["inputs"], "for all CSV texts over field, quote, comma and line-end tokens up to the bound",
 "tests parse a few well-formed tables",
 [C+"csv_parser.cc", B+"csv_splitter.cc", B+"string_util.cc", C+"csv_file.cc"],
 M(("line splitter", B+"csv_splitter.cc"), ("schema mapping", C+"csv_parser.cc")))
prop("P27", "Colors, numbers, booleans, enumerations and dates convert exactly",
 "Color text, components and integer forms convert into each other without loss, every finite number survives being written and read to the written precision, booleans and enumerations accept exactly their documented spellings, and date-times split into date, time and epoch seconds correctly. Text that is not a value of the type never yields garbage.",
 ["inputs"], "for all values over the byte, boundary and calendar alphabets",
 "tests check about ten values of each type",
 [B+"color32.h", B+"string_util.cc", B+"date_time.cc", B+"time_util.cc", D+"xsd.cc", D+"element.h"],
 M(("color packing", B+"color32.h"), ("string conversion", B+"string_util.h")))
prop("P28", "Element types, casts, visitors and feature walks are consistent",
 "Every element reports its own type, a cast to a type succeeds exactly for that type and its ancestors and returns the same element, and each element kind created by the factory by name or type is the one asked for. A visitor reaches every KML element of the tree exactly once, parents and children and the items of each list in order, dispatched to its own type, and a feature walk reaches every feature exactly once in document order.",
 ["inputs"], "for all element kinds, all pairs of kinds and all small trees",
 "tests check each cast positively; the full matrix and traversal of every child slot is not covered",
 [D+"kml_cast.cc", D+"kml_factory.cc", D+"visitor.cc", D+"visitor_driver.cc", N+"feature_visitor.cc", D+"*.cc"],
 M(("type hierarchy", D+"element.h"), ("AcceptChildren", D)))
prop("P29", "Independent uses do not influence each other, in any interleaving",
 "Parses, serializations, archive reads and lookups on separate objects yield the same results whether they run one after another, nested inside each other's callbacks, or interleaved step by step. No result depends on what the library was used for before.",
 ["schedules","histories"], "for all interleavings of the steps of two or three independent uses",
 "tests run one operation at a time",
 [D+"kml_handler.cc", B+"expat_parser.cc", B+"zip_file.cc", D+"kml_factory.cc", D+"xsd.cc", N+"kml_file.cc"],
 M(("per-object state", D+"kml_handler.h")))
prop("P30", "XSD compilation reports exactly the elements, types and derivations",
 "Compiling a schema yields exactly its global elements and types, classifies each element as abstract, complex or simple, resolves child elements through references and lists type hierarchies and derived elements correctly. Incomplete, cyclic or malformed schemas are handled safely.",
 ["inputs"], "for all small schemas over element, type, extension and reference declarations",
 "tests compile fixed schemas with complete, acyclic declarations",
 [X+"xsd_file.cc", X+"xsd_handler.cc", X+"xsd_element.cc", X+"xsd_schema.h", X+"xst_parser.cc"],
 M(("XSD handler", X+"xsd_handler.cc")))
prop("P31", "Documents declare the namespaces they use and old schemas are converted",
 "A document written as a file starts with an XML header in its encoding and declares, besides the default namespace, exactly the extension namespaces its content uses, so that a namespace-aware reader accepts it. Documents in the old typed-placemark style yield the same placemarks as their modern form.",
 ["inputs"], "for all combinations of extension content and element nesting",
 "tests check one file per namespace",
 [N+"find_xml_namespaces.cc", N+"kml_file.cc", B+"xmlns.h", B+"xml_namespaces.cc", N+"parse_old_schema.cc", N+"old_schema_parser_observer.h"],
 M(("namespace collector", N+"find_xml_namespaces.cc"), ("old schema replacement", N+"parse_old_schema.cc")))
prop("P32", "Geodesic and convenience computations are mutually consistent",
 "Distances, azimuths and destination points agree with each other and with spherical geometry over the whole globe, and convenience constructors and accessors build exactly the elements their arguments describe. Simplifying coordinates keeps the first point and exactly the points farther than the tolerance from their predecessor.",
 ["inputs"], "for all pairs of grid points over the globe including poles and antimeridian, all argument combinations of the constructors",
 "tests check a few point pairs",
 [B+"math_util.cc", C+"convenience.cc", C+"atom_util.cc", C+"gpx_trk_pt_handler.h", C+"element_counter.h"],
 M(("spherical formulas", B+"math_util.cc")))
prop("P33", "Attribute sets and XML namespaces are kept exactly, whatever the prefixes",
 "An attribute list holds exactly what was put in or parsed, whatever the order of operations: values read back as written, later values replace earlier ones, removed names are gone, and merging or iterating sees every attribute once. A document parsed namespace-aware yields the same elements whatever prefixes it uses for the KML, Atom and extension namespaces, and elements of other namespaces are never taken for KML elements.",
 ["inputs","histories"], "for all operation sequences on attribute lists and all prefix assignments up to the bound",
 "tests check single operations and one prefix assignment",
 [B+"attributes.cc", B+"xmlns.h", B+"xml_namespaces.cc", B+"expat_handler_ns.cc", D+"kml_handler_ns.cc", D+"parser.cc"],
 M(("attribute map", B+"attributes.cc"), ("prefix translation", B+"expat_handler_ns.cc")))
prop("P34", "Web service calls send exactly their request and follow feeds completely",
 "Each call of the feed, map, document and spreadsheet clients sends exactly the request it stands for, with the session's headers, hands back exactly what the server answered, and reports a refused or unusable answer as failure. Following a paged feed collects every entry's feature once, in order, and ends however the pages are linked; posting features sends each one complete and unchanged, once, and leaves the document as it was.",
 ["inputs","histories"], "for all sign-in answers, page graphs of up to three pages, feature hierarchies and entry shapes within the bound, with each request failing or succeeding",
 "tests use one canned answer per call; cyclic pages, failures in the middle and answers of other shapes are not covered",
 [C+"http_client.cc", C+"google_maps_data.cc", C+"google_spreadsheets.cc", C+"google_doc_list.cc", C+"google_picasa_web.cc", C+"atom_util.cc"],
 M(("request building", C+"google_maps_data.cc"), ("paging", C+"atom_util.cc")))
