// P04: parsing any bytes terminates with a document or an error.
#include "domgen.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_stream.h"
#include "zipmk.h"
using namespace mc; using namespace dg;

// Reference verdict from an independent expat run.
struct Ref { int depth = 0, max = 0; string root; bool entity = false; };
static void rs(void* u, const char* n, const char**) { Ref* r = (Ref*)u; if (!r->depth && r->root.empty()) r->root = n; if (++r->depth > r->max) r->max = r->depth; }
static void re(void* u, const char*) { ((Ref*)u)->depth--; }
static void ent(void* u, const char*, int, const char*, int, const char*, const char*, const char*, const char*) { ((Ref*)u)->entity = true; }
static std::set<string>& names() {
  static std::set<string> s; if (s.empty()) for (auto& c : all()) { if (c.cls != "IconStyleIcon") s.insert(c.tag); for (auto& f : c.f) if (!f.attr() && f.kind != sch::TEXT && !f.xml.empty()) s.insert(f.xml); }
  return s;
}
enum { PLAIN, NS, ATOM };
static bool accepts(const string& in, int mode) {
  XML_Parser p = mode == PLAIN ? XML_ParserCreate(NULL) : XML_ParserCreateNS(NULL, '|'); Ref r; XML_SetUserData(p, &r); XML_SetElementHandler(p, rs, re); XML_SetEntityDeclHandler(p, ent);
  bool ok = XML_Parse(p, in.data(), in.size(), 1) == XML_STATUS_OK; XML_ParserFree(p);
  if (!ok || r.entity || r.max > 100) return false;
  string root = r.root; size_t bar = root.rfind('|');
  if (mode == NS && bar != string::npos) root = root.substr(bar + 1);
  if (mode == ATOM && bar != string::npos) { string u = root.substr(0, root.find('|')), l = root.substr(root.find('|') + 1); root = u == "http://www.opengis.net/kml/2.2" ? l : u == "http://www.w3.org/2005/Atom" ? "atom:" + l : root; }
  return names().count(root);
}
static const char* DOC = "<kml><Placemark id=\"p\"><name>n</name><description>d<b>x</b></description><foo a=\"1\">u</foo><Point><coordinates>1,2,3</coordinates></Point></Placemark></kml>";
static string doc_ref() { static string s = kmldom::SerializeRaw(kmldom::Parse(DOC, NULL)); return s; }
static void one(Run& r, const string& in, int modes = 7) {
  r.nontrivial(); r.say(mc::esc(in.substr(0, 300))); string err; ElementPtr e; bool failed = false;
  for (int m = PLAIN; m <= ATOM; ++m) {
    if (!(modes >> m & 1)) continue;
    bool want = accepts(in, m); err.clear(); r.step(); static const char* MN[] = {"Parse", "ParseNS", "ParseAtom"};
    e = m == PLAIN ? kmldom::Parse(in, &err) : m == NS ? kmldom::ParseNS(in, &err) : kmldom::ParseAtom(in, &err);
    r.check(want == (e.get() != NULL), string("bytes:") + (want ? "refused" : "accepted"), string(MN[m]) + " error=" + err + " input=" + mc::esc(in));
    if (e) r.check(err.empty(), "bytes:error-with-document", string(MN[m]) + " " + err); else { failed = true; r.check(!err.empty(), "bytes:no-error-text", string(MN[m]) + " input=" + mc::esc(in)); }
    if (e) { string o = kmldom::SerializePretty(e) + kmldom::SerializeRaw(e); r.check(!o.empty(), "bytes:empty-output", ""); if (m == PLAIN) { Node n; string why; r.check(xn::read(kmldom::SerializeRaw(e), &n, &why), "bytes:output-ill-formed", why + " " + mc::esc(kmldom::SerializeRaw(e)) + " from " + mc::esc(in)); } }
    e = m == PLAIN ? kmldom::Parse(in, NULL) : e; if (m == PLAIN) r.check(want == (e.get() != NULL), "bytes:without-error-string", mc::esc(in));
    if (m == PLAIN && !(in.size() >= 4 && in.substr(0, 4) == "PK\x03\x04")) {
      err.clear(); kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromParse(in, &err); r.step();
      r.check(want == (f.get() != NULL), "bytes:file", mc::esc(in)); r.check(err.empty() == want, "bytes:file-error-text", err + " input=" + mc::esc(in)); if (f) { string o; r.check(f->SerializeToString(&o), "bytes:file-serialize", ""); }
    }
  }
  if (failed) { e = kmldom::Parse(DOC, &(err = "")); r.step(); r.check(e.get() && kmldom::SerializeRaw(e) == doc_ref(), "bytes:later-parse", "after " + mc::esc(in)); }
}
static const vector<string>& seeds() {
  static vector<string> v = {
    "<kml/>", "<name>x</name>", DOC,
    "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<kml xmlns=\"http://www.opengis.net/kml/2.2\"><!-- c --><Document id='d'><Style id=\"s\"><IconStyle><color>ff00ff00</color><Icon><href>a&amp;b</href></Icon></IconStyle></Style></Document></kml>",
    "<Placemark><Snippet maxLines=\"2\">a</Snippet><Snippet>b</Snippet><description><![CDATA[<b>]]>t</description><visibility>1</visibility></Placemark>",
    "<LineString><coordinates>1,2,3 -4.5,6e1\n7,8</coordinates><altitudeMode>absolute</altitudeMode></LineString>",
    "<Document><Schema name=\"S\" parent=\"Placemark\"><SimpleField name=\"a\" type=\"int\"/></Schema><S><name>n</name><a>1</a></S></Document>",
    "<ExtendedData><Data name=\"n\"><value>v</value></Data><SchemaData schemaUrl=\"#u\"><SimpleData name=\"k\">t</SimpleData></SchemaData></ExtendedData>",
    "<Placemark><x:y xmlns:x=\"u:x\" x:a=\"1\"><Point/></x:y><Document/>\xc3\xa9</Placemark>",
    "<feed xmlns=\"http://www.w3.org/2005/Atom\"><title>t</title><entry><link href=\"h\"/></entry></feed>",
    "<gx:Track><when>2010</when><gx:coord>1 2 3</gx:coord><gx:angles>1 2 3</gx:angles></gx:Track>",
    "<!DOCTYPE kml [<!ELEMENT kml ANY>]><kml>&lt;&#65;&#x42;</kml>",
    "<!DOCTYPE kml [<!ENTITY e \"v\">]><kml><Placemark><name>&e;</name></Placemark></kml>",
    string("\xff\xfe<\0k\0m\0l\0/\0>\0", 14), string("\xef\xbb\xbf<kml/>\n<!-- t -->"),
    "<Region><LatLonAltBox><north>1</north></LatLonAltBox><Lod><minLodPixels>x</minLodPixels></Lod></Region>",
    "<NetworkLinkControl><Update><targetHref>h</targetHref><Change><Placemark targetId=\"p\"/></Change><Create/><Delete/></Update></NetworkLinkControl>"};
  return v;
}
static const vector<string>& alpha() { static vector<string> v = {"<", ">", "/", "&", "\"", "'", " ", "=", "a", "!", "?", ";", "]", string(1, 0), "\xff", "\xc3", "-", "\r", ":"}; return v; }
static void mutate(Run& r) {
  const string& s = r.of(seeds()); int op = r.pick(4), pos = r.pick(s.size() + 1); string in = s;
  if (op == 0) in = s.substr(0, pos); else if (op == 1) in.erase(pos, 1); else if (op == 2) { if (pos >= (int)s.size()) r.prune(); in.replace(pos, 1, r.of(alpha())); } else in.insert(pos, r.of(alpha()));
  one(r, in);
}
// Delete any substring.
static void cut(Run& r) { const string& s = r.of(seeds()); int a = r.pick(s.size()), n = 1 + r.pick(s.size() - a); one(r, s.substr(0, a) + s.substr(a + n), 1); }
// Every pair of single-byte changes of a short document.
static void mutate2(Run& r) {
  static const vector<string> S = {"<kml><name>&lt;</name></kml>", "<Point id=\"a\"><coordinates>1,2</coordinates></Point>"}; static const vector<string> A = {"<", ">", "/", "&", "\"", " ", "a", ";"};
  const string& s = r.of(S); int p = r.pick(s.size()), q = r.pick(s.size()); if (q <= p) r.prune(); string in = s; in[p] = r.of(A)[0]; in[q] = r.of(A)[0]; one(r, in, 1);
}
static void tokens(Run& r, const vector<string>& T, int n, int modes) { string in; for (int i = 0; i < n; ++i) { int k = r.pick(T.size() + 1); if (k == 0) { if (i == 0) { one(r, "", 7); } else one(r, in, modes); return; } in += T[k - 1]; } one(r, in, modes); }
static const vector<string>& toks() { static vector<string> v = {"<kml>", "</kml>", "<Placemark id=\"i\">", "</Placemark>", "<name>", "</name>", "<description>", "</description>", "<foo>", "</foo>", "<foo a=\"&lt;\"/>", "<Point/>", "<Snippet>", "</Snippet>", "text", "<![CDATA[x]]>", "<!--c-->", "<?xml version=\"1.0\"?>", "&amp;", "<Schema name=\"foo\" parent=\"p\">", "</Schema>"}; return v; }
// Balanced trees: what follows a document's start is any forest of up to n
// elements; labels include the old schema names and everything they clash with.
static int forest(Run& r, const vector<string>& L, int budget, int depth, string* o) {
  while (budget > 0) { int k = r.pick(L.size() + 1); if (k == 0) return budget; const string& l = L[k - 1]; --budget; string name = l.substr(0, l.find(' ')); if (depth == 0) { *o += "<" + l + "/>"; continue; } *o += "<" + l + ">"; budget = forest(r, L, budget, depth - 1, o); *o += "</" + name + ">"; }
  return 0;
}
static void old_schema(Run& r) {
  static const vector<string> SN = {"S", "Schema", "kml", "Document", "Placemark", "a", "foo", "", "SimpleField", "description", "coordinates"}, SF = {"a", "name", "S", "Schema", "foo", ""};
  static const vector<string> L = {"S", "a", "foo", "name", "description", "Schema", "Placemark"};
  string in = "<kml><Document><Schema parent=\"Placemark\" name=\"" + r.of(SN) + "\">"; if (r.flip()) in += "<SimpleField name=\"" + r.of(SF) + "\" type=\"string\"/>"; in += "</Schema>"; forest(r, L, thorough ? 4 : 3, 3, &in); in += "t</Document></kml>"; one(r, in, 1);
}
static void trees(Run& r) {
  static const vector<string> L = {"description", "foo", "name", "Placemark", "Icon", "IconStyle", "coordinates", "Schema name=\"foo\" parent=\"x\"", "SimpleData name=\"k\""};
  string in = "<kml>"; forest(r, L, thorough ? 5 : 4, 4, &in); in += "</kml>"; one(r, in, 3);
}
static void depth(Run& r) {
  static const vector<string> T = {"Folder", "foo", "name", "description", "MultiGeometry", "Data", "Snippet"}; const string& t = r.of(T); static const vector<int> D = {1, 2, 50, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 199, 200, 201, 300, 1000, 5000};
  int d = r.of(D), root = r.pick(3), last = r.pick(3); string in = root == 0 ? "<kml>" : root == 1 ? "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Document><name>n</name>" : "<Document>", end = root == 1 ? "</Document></kml>" : root == 0 ? "</kml>" : "</Document>";
  int n = d - (root == 1 ? 2 : 1); if (n < 0) r.prune(); for (int i = 0; i < n; ++i) in += (i == n - 1 && last == 0) ? "<" + t + "/>" : "<" + t + ">"; if (last == 2) in += "x"; for (int i = n - 1; i >= 0; --i) if (!(i == n - 1 && last == 0)) in += "</" + t + ">"; in += end; if (r.flip()) in += "<!-- end -->"; one(r, in);
}
static void roots(Run& r) {
  static vector<string> v; if (v.empty()) { v.assign(names().begin(), names().end()); for (const char* n : {"Feature", "Geometry", "Object", "Container", "Overlay", "StyleSelector", "SubStyle", "ColorStyle", "TimePrimitive", "AbstractView", "AbstractLatLonBox", "Vec2", "BasicLink", "foo", "KML", "Kml", "kml2", "km", "x:kml", "gx:kml", "gx:foo", "Tour", "feed", "html"}) v.push_back(n); }
  const string& n = r.of(v); static const vector<string> B = {"", "x", "<name>a</name>", "<Placemark/>", "<foo><kml/></foo>", " \n "}; const string& b = r.of(B); int x = r.pick(3);
  string ns = x == 0 ? "" : x == 1 ? " xmlns=\"http://www.opengis.net/kml/2.2\" xmlns:gx=\"g\" xmlns:atom=\"a\" xmlns:xal=\"x\" xmlns:x=\"y\"" : " xmlns=\"http://www.w3.org/2005/Atom\" xmlns:gx=\"g\" xmlns:atom=\"http://www.w3.org/2005/Atom\" xmlns:xal=\"x\" xmlns:x=\"http://www.opengis.net/kml/2.2\"";
  one(r, b.empty() && r.flip() ? "<" + n + ns + "/>" : "<" + n + ns + ">" + b + "</" + n + ">");
}
// Very long tokens.
static void big(Run& r) {
  static const vector<int> N = {1023, 1024, 4096, 65536, 1000000}; int n = r.of(N); string x(n, 'a'), in; switch (r.pick(9)) { case 0: in = "<" + x + "/>"; break; case 1: in = "<kml><" + x + "/></kml>"; break; case 2: in = "<kml " + x + "=\"1\"/>"; break; case 3: in = "<kml a=\"" + x + "\"/>"; break; case 4: in = "<name>" + x + "</name>"; break; case 5: in = "<kml><!--" + x + "--></kml>"; break; case 6: in = "<Point><coordinates>" + x + "</coordinates></Point>"; break; case 7: in = "<Point><coordinates>" + string(n, '1') + "," + string(n, '2') + "</coordinates></Point>"; break; default: for (int i = 0; i < n / 100; ++i) in += " a" + str(i) + "=\"v\""; in = "<kml" + in + "/>"; } one(r, in);
}
// Archives whose default document is any of these.
static void kmz(Run& r) {
  static vector<string> B = {"", "<kml/>", "<foo/>", "<kml>", "not xml", DOC, "<name>n</name>", string("\0\0", 2)}; const string& b = r.of(B); int shape = r.pick(4); vector<zipmk::Entry> es; bool has = shape != 1;
  if (shape == 2) es.push_back(zipmk::E("a.txt", "x")); if (shape == 3) es.push_back(zipmk::E("x/a.png", "<kml/>")); es.push_back(zipmk::E(has ? "doc.kml" : "doc.txt", b)); string z = zipmk::make(es); r.nontrivial(); r.step(); r.say(b);
  bool want = has && accepts(b, PLAIN); string err; kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromParse(z, &err); r.check(want == (f.get() != NULL), "bytes:kmz", err + " doc=" + mc::esc(b) + " shape " + str(shape)); r.check(want == err.empty(), "bytes:kmz-error-text", err + " doc=" + mc::esc(b) + " shape " + str(shape));
}
void mc_setup() {
  rule("every truncation, deletion, substitution and insertion at every offset of 17 seed documents over a 19 byte alphabet; every substring deletion; every pair of byte changes of short documents; every token sequence up to length 4 (5) over 21 tokens; every balanced forest of up to 4 (5) elements; old-schema forests; nesting up to and beyond the limit; every element name as root with and without namespaces; long tokens; each through Parse, ParseNS, ParseAtom and KmlFile, against the verdict of an independent expat run plus the nesting limit and the reference list of KML names; a fixed document is re-parsed after every failure");
  assume("a document with entity declarations counts as not acceptable (the library refuses them)");
  cpu_limit(20);
  add("mutate", mutate); add("cut", cut); add("mutate2", mutate2); add("tok4", [](Run& r) { tokens(r, toks(), thorough ? 5 : 4, 1); }); add("tok3", [](Run& r) { tokens(r, toks(), 3, 7); });
  add("old", old_schema); add("trees", trees); add("depth", depth); add("roots", roots); add("big", big); add("kmz", kmz);
}
