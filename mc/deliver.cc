// P05: the result of a parse does not depend on how the input is delivered.
#include "domgen.h"
#include "kml/base/expat_parser.h"
#include "kml/dom/kml_handler.h"
#include "kml/dom/parser.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/kml_file.h"
#include "kml/dom/parser_observer.h"
#include <istream>
#include <boost/scoped_ptr.hpp>
using namespace mc; using namespace dg;

static const vector<string>& docs() {
  static vector<string> v = {
    "<kml/>", "<name>x</name>", "<Placemark><name>a &amp; b</name></Placemark>", "<Point><coordinates>1.25,-2.5,3\n4,5</coordinates></Point>",
    "<Placemark><description><![CDATA[<b>]]&gt; x ]]>y<i a=\"1\">z</i></description></Placemark>", "<Snippet maxLines=\"3\">\xc3\xa9\xe2\x82\xac&#x41;</Snippet>",
    "<kml><foo a='x&lt;y'>t<bar/>u</foo><Folder id=\"f\"><name>\r\nn\r</name></Folder></kml>", "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?><name>\xe9</name>", string("\xff\xfe<\0n\0a\0m\0e\0>\0\x3d\xd8\0\xde<\0/\0n\0a\0m\0e\0>\0", 32),
    "\xef\xbb\xbf<kml><!-- -- - --></kml>", "<kml><!-- c --><?pi x?><Placemark/></kml>\n<!-- t -->\n", "<gx:Track><when>2010</when><gx:coord>1 2 3</gx:coord></gx:Track>",
    // Not acceptable.
    "", " ", "<", "<kml>", "<kml></km>", "<foo/>", "<foo><kml/></foo>", "<kml>&x;</kml>", "<kml/><kml/>", "<kml a=\"1\" a=\"2\"/>", "text", "<!DOCTYPE k [<!ENTITY e 'v'>]><kml>&e;</kml>", "<name>\xc3</name>", "<kml><Placemark></kml></Placemark>", "<kml/>x",
    "<!DOCTYPE kml [<!ELEMENT kml ANY>]><kml>&lt;</kml>"};
  return v;
}
static vector<string> longdocs() {
  vector<string> v; v.push_back("<kml><Document><Schema name=\"S\" parent=\"Placemark\"><SimpleField name=\"a\" type=\"int\"/></Schema><S><name>n</name><a>12</a></S><Style id=\"s\"><IconStyle><Icon><href>a&amp;b</href></Icon></IconStyle></Style></Document></kml>");
  string deep; for (int i = 0; i < 99; ++i) deep += "<Folder>"; string e; for (int i = 0; i < 99; ++i) e += "</Folder>"; v.push_back("<kml>" + deep + e + "</kml>"); v.push_back("<kml><Folder>" + deep + e + "</Folder></kml>");
  v.push_back("<LineString><coordinates>100.125,-20.5,30 -1e1,2.25\t7,8,9\n0.5,0.5</coordinates><extrude>1</extrude></LineString>"); return v;
}
struct Out { bool ok; string xml, err; };
static bool operator==(const Out& a, const Out& b) { return a.ok == b.ok && a.xml == b.xml; }
static Out whole(const string& in) { Out o; ElementPtr e = kmldom::Parse(in, &o.err); o.ok = e.get() != NULL; if (e) o.xml = kmldom::SerializeRaw(e); return o; }
static void same(Run& r, const Out& want, const Out& got, const string& sig, const string& ctx) {
  r.check(want.ok == got.ok, sig + "-verdict", ctx + " want " + (want.ok ? "ok" : "error " + want.err) + " got " + (got.ok ? "ok" : "error " + got.err)); r.eq(want.xml, got.xml, sig + "-tree", ctx); r.check(got.ok == got.err.empty(), sig + "-error-text", ctx + " error=" + got.err);
}
// final_mode 0: the last piece is final; 1: an empty final piece follows; 2: as 0 through the internal buffer.
static Out feed(Run& r, const string& in, const vector<size_t>& cuts, int mode) {
  Out o; o.ok = false; kmldom::parser_observer_vector_t obs; kmldom::KmlHandler h(obs); kmlbase::ExpatParser p(&h, false); vector<string> part; size_t at = 0; for (size_t c : cuts) { part.push_back(in.substr(at, c - at)); at = c; } part.push_back(in.substr(at)); if (mode == 1) part.push_back("");
  for (size_t i = 0; i < part.size(); ++i) { bool fin = i + 1 == part.size(), ok; r.step();
    if (mode == 2) { void* b = p.GetInternalBuffer(part[i].size() + 7); memcpy(b, part[i].data(), part[i].size()); ok = p.ParseInternalBuffer(part[i].size(), &o.err, fin); } else ok = p.ParseBuffer(part[i], &o.err, fin);
    if (!ok) return o; }
  ElementPtr e = h.PopRoot(); o.ok = e.get() != NULL; if (e) o.xml = kmldom::SerializeRaw(e); return o;
}
static string cutstr(const vector<size_t>& c) { string s; for (size_t x : c) s += str(x) + ","; return s; }
static void splits(Run& r, int k) {
  static vector<string> all_; if (all_.empty()) { all_ = docs(); for (auto& s : longdocs()) all_.push_back(s); }
  const string& in = all_[r.pick(k >= 2 ? docs().size() : all_.size())]; int mode = r.pick(3); vector<size_t> c; for (int i = 0; i < k; ++i) { size_t lo = c.empty() ? 0 : c.back(); c.push_back(lo + r.pick(in.size() + 1 - lo)); } r.nontrivial(); r.say(mc::esc(in) + " cut at " + cutstr(c));
  same(r, whole(in), feed(r, in, c, mode), "deliver:buffers", mc::esc(in) + " cuts " + cutstr(c) + " mode " + str(mode));
}
static void bytewise(Run& r) {
  static vector<string> all_; if (all_.empty()) { all_ = docs(); for (auto& s : longdocs()) all_.push_back(s); } const string& in = r.of(all_); int mode = r.pick(3), step = 1 + r.pick(9), first = r.pick(9); vector<size_t> c; for (size_t i = first; i < in.size(); i += step) c.push_back(i); r.nontrivial();
  same(r, whole(in), feed(r, in, c, mode), "deliver:buffers", mc::esc(in) + " every " + str(step) + " from " + str(first));
}
// A stream delivering pieces of the given size, and failing at a byte if asked.
struct Buf : std::streambuf {
  string s; size_t at, chunk, fail; std::vector<char> b; Buf(const string& x, size_t c, size_t f) : s(x), at(0), chunk(c), fail(f) {}
  int_type underflow() { if (at >= fail) throw 1; if (at >= s.size()) return traits_type::eof(); size_t n = std::min(chunk, std::min(s.size(), fail) - at); b.assign(s.begin() + at, s.begin() + at + n); at += n; setg(&b[0], &b[0], &b[0] + n); return traits_type::to_int_type(b[0]); }
};
static Out stream(Run& r, const string& in, size_t chunk, size_t fail = string::npos) {
  Out o; Buf b(in, chunk, fail); std::istream is(&b); r.step(); boost::scoped_ptr<kmlengine::KmlStream> s(kmlengine::KmlStream::ParseFromIstream(&is, &o.err, NULL)); o.ok = s.get() && s->get_root(); if (s.get()) r.check(s->get_root().get() != NULL, "deliver:stream-without-root", mc::esc(in.substr(0, 200))); if (o.ok) o.xml = kmldom::SerializeRaw(s->get_root()); return o;
}
// Place the buffer boundary (the stream parser reads 4096 bytes at a time) at
// every offset of the document by padding in front of the root element.
static void boundary(Run& r) {
  static vector<string> all_; if (all_.empty()) { for (auto& s : docs()) all_.push_back(s); for (auto& s : longdocs()) all_.push_back(s); } const string& in = r.of(all_); int off = r.pick(in.size() + 1), chunk = r.pick(2), blocks = 1 + r.pick(thorough ? 3 : 2); string pre, body = in;
  if (in.substr(0, 5) == "<?xml" || (in.size() && (in[0] == '\xff' || in[0] == '\xef'))) { size_t e = in[0] == '\xff' ? 2 : in[0] == '\xef' ? 3 : in.find("?>") + 2; pre = in.substr(0, e); body = in.substr(e); }
  if (off < (int)pre.size()) r.prune(); size_t pad = 4096 * blocks - off; bool u16 = in.size() && in[0] == '\xff'; string sp; if (u16) { if (pad % 2) r.prune(); while (sp.size() < pad) sp += string("\n\0", 2); } else sp.assign(pad, '\n'); string doc = pre + sp + body; r.nontrivial(); r.say(mc::esc(in) + " boundary at " + str(off));
  same(r, whole(doc), stream(r, doc, chunk ? 1000 : 100000), "deliver:stream", mc::esc(in) + " boundary at offset " + str(off));
  if (!u16 && body == in) { string inside = "<kml><!--" + string(pad > 20 ? 4096 * blocks - 16 - off : 0, 'c') + "-->" + in + "</kml>"; if (in.substr(0, 2) != "<?" && in.substr(0, 2) != "<!") same(r, whole(inside), stream(r, inside, chunk ? 1000 : 100000), "deliver:stream", mc::esc(in) + " within kml, boundary at offset " + str(off)); }
}
static void lengths(Run& r) {  // documents of every length around the buffer size, ending in data or white space
  int n = 4096 * (1 + r.pick(2)) - 40 + r.pick(80), kind = r.pick(4), chunk = 1 + r.pick(3) * 2000; string in; switch (kind) { case 0: in = "<name>" + string(n - 13, 'x') + "</name>"; break; case 1: in = "<kml/>" + string(n - 6, ' '); break; case 2: in = "<kml><Placemark>" + string(n - 16, ' '); break; default: in = "<name>" + string(n - 13, 'x') + "</nam>"; } r.nontrivial(); same(r, whole(in), stream(r, in, chunk), "deliver:length", "kind " + str(kind) + " length " + str(n));
}
static void small(Run& r) { static vector<string> all_; if (all_.empty()) { all_ = docs(); for (auto& s : longdocs()) all_.push_back(s); } const string& in = r.of(all_); int chunk = r.of({1, 2, 3, 5, 7, 64, 5000}); r.nontrivial(); same(r, whole(in), stream(r, in, chunk), "deliver:stream", mc::esc(in)); }
// The stream fails (read error) at every byte: a failure, never a shorter document.
static void broken(Run& r) {
  static vector<string> all_; if (all_.empty()) { all_ = docs(); all_.push_back(longdocs()[0]); all_.push_back("<kml>" + string(5000, ' ') + "<Placemark/></kml>"); } const string& in = r.of(all_); size_t step = in.size() > 1000 ? 251 : 1; size_t at = r.pick(in.size() / step + 1) * step, chunk = r.of({1, 4096}); if (at > in.size()) r.prune(); r.nontrivial();
  Out o = stream(r, in, chunk, at); r.check(!o.ok, "deliver:read-error-ignored", mc::esc(in.substr(0, 100)) + " fails at " + str(at)); r.check(!o.err.empty(), "deliver:read-error-text", str(at)); std::istringstream bad(in); bad.setstate(r.flip() ? std::ios::badbit : std::ios::failbit); string err; boost::scoped_ptr<kmlengine::KmlStream> s(kmlengine::KmlStream::ParseFromIstream(&bad, &err, NULL)); r.step(); r.check(!s.get() && !err.empty(), "deliver:bad-stream", mc::esc(in));
}
// Namespace aware parse of every class with every field.
static bool foreign(const Node& n) { if (n.name.find(':') != string::npos) return true; for (auto& k : n.kid) if (foreign(k)) return true; return false; }
static void rename(Node& n, const string& p) { n.name = p + n.name; for (auto& k : n.kid) rename(k, p); }
static void ns(Run& r) {
  const Class& c = all()[r.pick(all().size())]; if (c.cls == "IconStyleIcon") r.prune(); M m(c); int only = r.pick(c.f.size() + 1); for (size_t i = 0; i < c.f.size(); ++i) if (only == (int)c.f.size() || only == (int)i) put(m, i, "f"); Node n = to_xml(m); if (foreign(n)) { if (only == (int)c.f.size()) { M m2(c); for (size_t i = 0; i < c.f.size(); ++i) { M t(c); put(t, i, "f"); if (!foreign(to_xml(t))) put(m2, i, "f"); } n = to_xml(m2); } if (foreign(n)) r.prune(); }
  string plain = xn::write(n); int how = r.pick(4); Node k = n; string in; if (how == 0) { k.attr["xmlns"] = "http://www.opengis.net/kml/2.2"; in = xn::write(k); } else if (how == 1) { rename(k, "k:"); k.attr["xmlns:k"] = "http://www.opengis.net/kml/2.2"; in = xn::write(k); } else if (how == 2) in = plain; else { k.attr["xmlns"] = "http://earth.google.com/kml/2.1"; in = xn::write(k); }
  r.nontrivial(); r.step(2); string err; ElementPtr a = kmldom::Parse(plain, &err), b = kmldom::ParseNS(in, &err); r.check(a.get() && b.get(), "deliver:ns-verdict", err + " " + in); r.eq(kmldom::SerializeRaw(a), kmldom::SerializeRaw(b), "deliver:ns-tree", in);
}
static void nsbytes(Run& r) {  // the same verdict for every prefix of a namespaced document
  static const string D = "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Document id=\"d\"><name>n&amp;</name><Placemark><description><![CDATA[x]]></description><Point><coordinates>1,2</coordinates></Point></Placemark></Document></kml> "; size_t n = r.pick(D.size() + 1); string in = D.substr(0, n), e1, e2; ElementPtr a = kmldom::Parse(in, &e1), b = kmldom::ParseNS(in, &e2); r.nontrivial(); r.step(2); r.check((a.get() != NULL) == (b.get() != NULL), "deliver:ns-verdict", in); if (a) r.eq(kmldom::SerializeRaw(kmldom::AsKml(a)->get_feature()), kmldom::SerializeRaw(kmldom::AsKml(b)->get_feature()), "deliver:ns-tree", in);
}
// From a string to a KmlFile and from a stream to a KmlStream.
static void file(Run& r) { static vector<string> all_; if (all_.empty()) { all_ = docs(); for (auto& s : longdocs()) all_.push_back(s); } const string& in = r.of(all_); Out a = whole(in), b; kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromParse(in, &b.err); b.ok = f.get() != NULL; if (f) b.xml = kmldom::SerializeRaw(f->get_root()); r.nontrivial(); r.step(); same(r, a, b, "deliver:file", mc::esc(in)); f = kmlengine::KmlFile::CreateFromString(in); r.check((f.get() != NULL) == a.ok, "deliver:file-string", mc::esc(in)); }
void mc_setup() {
  rule("26 accepted and refused documents (entities, CDATA, multi-byte and UTF-16 text, comments, markup in description, old schema, nesting at the limit) delivered in every pair (triple) of buffers, bytewise, with and without a separate final buffer; through the stream parser with its 4096 byte boundary at every offset of every document, at every document length around it, with every chunk size, and with a read error at every byte; namespace-aware parse of every class and field with and without prefix; each compared with Parse of the whole string");
  assume("namespace-aware parsing covers elements of the KML namespace; extension elements and xmlns attributes are represented differently by design");
  add("split1", [](Run& r) { splits(r, 1); }); add("split2", [](Run& r) { splits(r, 2); }); add("split3", [](Run& r) { splits(r, 3); }, THOROUGH); add("bytewise", bytewise); add("boundary", boundary); add("lengths", lengths); add("small", small); add("broken", broken); add("ns", ns); add("nsbytes", nsbytes, BOTH, 1); add("file", file, BOTH, 1);
}
