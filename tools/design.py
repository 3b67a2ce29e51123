#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the rule of each harness, the notes below and known_findings.txt."""
import re, os, json
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = {}  # property: (oracle, limits)
def p(i, oracle, limits=""): O[i] = (oracle, limits)
p("P01", "an element model generated from mc/schema.h (an independent table of every class, field, type and child slot, written from the KML 2.2 schema and the public headers); the serialization is read back by a separate XML reader (mc/xmlnode.h over expat) and compared as an infoset, and every accessor is compared with the model",
  "one known finding (empty Snippet, linkSnippet and SimpleData text becomes white space in pretty form). Duplicate occurrences of single-valued children and enumerations with unknown spellings are P04/P27 matter")
p("P02", "the string itself, after a trip through SerializeRaw/SerializePretty, an independent XML reader, and Parse", "characters XML cannot carry (control characters, invalid UTF-8) are outside")
p("P03", "the tree of the input read by the independent XML reader; the known part must equal the parse of the input without the unknown part", "unknown content inside simple fields, Snippet, linkSnippet, coordinates and SimpleData is not covered (the parser collects text only there); prefixes of unknown content are not declared by the library")
p("P04", "an independent expat run decides well-formedness; the nesting limit and the list of KML element names decide the rest; a fixed document is parsed after every failure; sanitizers watch memory", "documents with entity declarations are refused by design")
p("P05", "the parse of the whole string", "for an empty-element tag expat still reports the end after a stop")
p("P06", "the event sequence computed from the element tree of the case", "observers after the refusing one need not be told")
p("P07", "a direct grammar reader for coordinate tuples; anything else must terminate and contain only numbers that occur in the text")
p("P08", "a map from field to value, compared through every accessor after every operation")
p("P09", "a model of parents, child lists and reference counts; heap balance through sanitizer interfaces", "a removed child keeps its parent pointer, and GetParent of a child that outlives its parent dangles (both documented behaviour of the library, excluded)")
p("P10", "serialization, accessors, and the set of element addresses of both trees")
p("P11", "a reference merge on the schema table")
p("P12", "an independent document model to which the operations are applied", "objects created by an update are not targets of later ones; deletes with duplicate ids are unspecified")
p("P13", "a walk over the model document")
p("P14", "a reference cascade over the style graph", "the resolver's budget is 5 references in total, longer chains are not decided")
p("P15", "the resolved style of every feature read from the XML before and after", "ids unique, styleUrl before Style, chains up to 5")
p("P16", "a one-pass reference expansion", "values which themselves contain references, and remote schemaUrls, are unspecified")
p("P17", "a FIFO cache model and the log of fetches")
p("P18", "an independent ZIP reader and writer (mc/zipmk.h)", "with repeated entry names the first is read")
p("P19", "the directory of the damaged archive (size and CRC of each entry), read independently; sanitizers watch memory")
p("P20", "a path containment model over a scratch directory; files inside and outside carry their own names as content, so an escape is seen in the archive. The checks only ever read outside-looking files which they created themselves", "percent-encoded names undecided; FIFOs and symlinks not covered; KmzSplit with a query unspecified; a reference named doc.kml duplicates the entry")
p("P21", "the file's content compared with the data; the space is limited with RLIMIT_FSIZE (a write beyond the chosen offset fails), so every crash offset of a write is visited without touching the real file system")
p("P22", "a direct implementation of RFC 3986 section 5", "uriparser's canonical IPv6 spelling and its '/.' guard are accepted")
p("P23", "the list of references the generator placed")
p("P24", "a fold over the locations placed", "GroundOverlay has no bounds (TODO in the code); valid latitudes and longitudes only")
p("P25", "the files written, read independently: every feature exactly once, reachable from the root through links, inside its region", "features must not already have a parent; the progress monitor's stop and failing writes are not covered")
p("P26", "a reference splitter and mapping", "no NUL bytes; quoted newlines are not supported by the format; duplicate columns unspecified; white space after a number accepted")
p("P27", "arithmetic on components, strtod/strtol for numbers, the proleptic Gregorian calendar for dates", "color text shorter than 8 digits with a tail unspecified; leap seconds excluded")
p("P28", "the class hierarchy of the schema table")
p("P29", "what each operation yields alone in a fresh process", "one thread runs at a time: preemption happens at callbacks, steps and instrumented control-flow edges (sanitizer coverage of the library build), so races within one basic block are not seen; no preemption inside static initialisation; a blocked second thread gets 4 s before the first continues")
p("P30", "an independent reading of the schema tree", "schemas use the XML Schema namespace as default, one prefix per namespace; alias lines are single-spaced")
p("P31", "the prefixes used by the written text; expat in namespace mode; for old schemas the hand-written modern form", "prefixes of unknown content are only required if the document declared them; old schemas without an id of their own")
p("P32", "vector geometry on the sphere; independently written XML for the convenience constructors", "longitudes modulo 360; 2 m tolerance near the antipode")
p("P33", "std::map for attribute sets; for documents the un-prefixed parse", "ParseAtom keeps elements of undeclared namespaces under 'uri|name' and does not map gx/xal prefixes (TODO in the code)")
p("P34", "the log of a recording server with scripted answers", "NULL features and entries are not passed; placemarks without geometry may be posted or skipped; a second sign-in adds a second header (as the code documents nothing else)")
for i, (a, b) in json.load(open(os.path.join(B, "tools", "design_more.json"))).items() if os.path.exists(os.path.join(B, "tools", "design_more.json")) else []: p(i, a, b)
H = dict(reversed(l.split()) if False else (l.split()[0], l.split()[1]) for l in open(os.path.join(B, "tools/enabled.txt")) if l.strip())
P = [json.loads(l) for l in open(os.path.join(B, "properties.jsonl"))]
K = [l.rstrip("\n") for l in open(os.path.join(B, "known_findings.txt"))]
out = [open(os.path.join(B, "tools/design_head.md")).read().rstrip(), "", "## The properties", ""]
for q in P:
    i = q["id"]; src = open(os.path.join(B, "mc", H[i] + ".cc")).read(); m = re.search(r'rule\("((?:[^"\\]|\\.)*)"', src); rule = m.group(1).replace('\\"', '"')
    rule = re.sub(r'"\s*\n\s*"', '', rule); sc = []
    for s in re.findall(r'\badd\("([a-z0-9-]+)"', src):
        if s not in sc and s not in ("feature", "geometry", "coordinates", "snippet"): sc.append(s)
    out += ["### %s %s" % (i, q["title"]), "", "*Harness* `mc/%s.cc`, scenarios %s." % (H[i], ", ".join("`%s`" % s for s in sc)), "", "*Space.* " + rule[0].upper() + rule[1:].rstrip(".") + ".", "", "*Oracle.* " + O[i][0][0].upper() + O[i][0][1:] + ".", ""]
    if O[i][1]: out += ["*Limits.* " + O[i][1][0].upper() + O[i][1][1:] + ".", ""]
    f = [k for k in K if "property=" + i in k and k.startswith("fixed")]
    if f: out += ["*Found and repaired.* " + "; ".join("%s (%s)" % (k.split(" ", 3)[3].rstrip("."), k.split(" ")[2]) for k in f) + ".", ""]
out += ["", open(os.path.join(B, "tools/design_tail.md")).read().rstrip(), ""]
open(os.path.join(B, "DESIGN.md"), "w").write("\n".join(out))
