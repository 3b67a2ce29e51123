// P02: any text set through the API serializes to XML that reads back equal.
#include "domgen.h"
#include "kml/dom/xml_serializer.h"
#include "kml/base/string_util.h"
using namespace mc; using namespace dg;

static const vector<string> TOK = {"a", "&", "<", ">", "\"", "'", "]", "]]>", "<![CDATA[", "&amp;", "&#38;", " ", "\n", "\r", "\t", "<b>", "</name>", "<!--", "\xc3\xa9", "<?x?>", "]]", ";", "\xf0\x9f\x8c\x8d", "$[name]", "--", "{", "\xe2\x80\xa8", "0"};
static const vector<string> TOK2 = {"a", "&", "<", ">", "\"", "]", "]]>", "<![CDATA[", "\n", "\r", " ", "\xc3\xa9", "lt;"};
static void rt(Run& r, const M& m0, const string& what) {
  M m = rooted(m0); string why; ElementPtr e = to_dom(m); r.nontrivial(); r.say(what);
  for (int pretty = 0; pretty < 2; ++pretty) {
    string o = pretty ? kmldom::SerializePretty(e) : kmldom::SerializeRaw(e), x; Node n; r.step(); ws_in_empty() = false;
    r.check(xn::read(o, &n, &x), "text:not-well-formed", x + " in " + mc::esc(o));
    r.check(match(m, n, &why), "text:written-differs", why + " in " + mc::esc(o));
    ElementPtr p = kmldom::Parse(o, &x); r.step();
    r.check(p.get() != NULL, "text:reparse", x + " in " + mc::esc(o));
    r.check(equals(m, p, &why, true), "text:read-differs", why + " from " + mc::esc(o));
  }
}
static bool is_str(const Field& f) { return f.kind == STR || f.kind == ASTR || f.kind == TEXT || f.kind == SLIST; }
static void setstr(M& m, int i, const string& v) { if (m.c->f[i].kind == SLIST) m.sl[i].push_back(v); else m.sc[i] = v; }
// Every string field of every class; neighbours present.
static void fields(Run& r, int len) {
  const Class& c = all()[r.pick(all().size())]; vector<int> k; for (size_t i = 0; i < c.f.size(); ++i) if (is_str(c.f[i])) k.push_back(i);
  if (k.empty()) r.prune(); int f = r.of(k); string v; for (int i = 0; i < len; ++i) v += r.of(TOK);
  M m(c); for (int j : k) if (j != f) setstr(m, j, "z"); setstr(m, f, v); rt(r, m, c.cls + "." + c.f[f].api + " = " + mc::esc(v));
}
// One field of each serialization route, all longer strings.
static void deep(Run& r, int len) {
  static const char* R[][2] = {{"Placemark", "name"}, {"Placemark", "description"}, {"Snippet", "text"}, {"Placemark", "id"}, {"SimpleData", "text"}, {"Data", "value"}, {"atom:author", "name"}, {"SimpleData", "name"}};
  int k = r.pick(thorough || len < 4 ? 8 : 2); string v; for (int i = 0; i < len; ++i) v += r.of(TOK2);
  M m(R[k][0]); m.set(R[k][1], v); if (k < 2) m.set("styleurl", "#s"); rt(r, m, string(R[k][1]) + " = " + mc::esc(v));
}
// Two such fields at once, nested.
static void pair(Run& r) {
  M d("Document"), p("Placemark"), s("Snippet"); string a = r.of(TOK) + r.of(TOK), b = r.of(TOK);
  d.set(r.flip() ? "name" : "description", a); s.set("text", b); p.add("snippet", s); p.set("name", b + a); d.add("feature", p); rt(r, d, mc::esc(a) + " / " + mc::esc(b));
}
void mc_setup() {
  rule("every string field, attribute, character data and string list of every class with every string of up to two tokens over an alphabet of 28 markup, white space, entity and multi-byte tokens; one field of each serialization route with all strings up to the length over 13 tokens; pairs of fields");
  assume("strings are sequences of XML characters; expat decides well-formedness");
  add("fields1", [](Run& r) { fields(r, 1); }); add("fields2", [](Run& r) { fields(r, 2); }, BOTH, 3);
  add("fields3", [](Run& r) { fields(r, 3); }, THOROUGH, 3);
  for (int n = 0; n <= 4; ++n) add("deep" + str(n), [n](Run& r) { deep(r, n); }, BOTH, n ? 2 : 1);
  add("deep5", [](Run& r) { deep(r, 5); }, THOROUGH, 3);
  add("pair", pair);
}
