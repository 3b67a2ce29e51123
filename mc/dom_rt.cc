// P01: parse/serialize round trip over the whole schema.
#include "domgen.h"
#include "kml/dom/xml_serializer.h"
using namespace mc; using namespace dg;

static string indent_write(const Node& n, int d) {  // whitespace-rich spelling
  string pad = "\n" + string(d * 3, ' '); string o = pad + "<" + n.name;
  for (auto& a : n.attr) o += "\n  " + a.first + " = \"" + xn::esc(a.second, true) + "\"";
  bool leaf = n.kid.empty();
  if (leaf && n.text.empty()) return o + " ></" + n.name + " >";
  o += ">" + (leaf && n.name != "coordinates" ? "<![CDATA[" + n.text + "]]>" : xn::esc(n.text));
  for (auto& k : n.kid) o += indent_write(k, d + 1);
  return o + (leaf ? "" : pad) + "</" + n.name + "\n>";
}
static string spell(const M& m, int style) {
  if (style == 0) return xn::write(to_xml(m));
  if (style == 1) return "<?xml version='1.0' encoding='utf-8'?>" + indent_write(to_xml(m), 0) + "\n<!-- c -->\n";
  return xn::write(to_xml(m, true));
}
static void rt(Run& r, const M& m0, int style) {
  M m = rooted(m0);
  string in = spell(m, style), err, why; ws_in_empty() = false; r.say(in); r.nontrivial();
  ElementPtr e = kmldom::Parse(in, &err); r.step();
  r.check(e.get() != NULL, "rt:parse-fails", in + " : " + err);
  r.check(err.empty(), "rt:error-on-success", err);
  r.check(equals(m, e, &why, true), "rt:parsed-values", why + " from " + in);
  for (int pretty = 0; pretty < 2; ++pretty) {
    string o = pretty ? kmldom::SerializePretty(e) : kmldom::SerializeRaw(e); r.step();
    Node n; string x; if (!pretty) r.check(!ws_in_empty(), "rt:raw-whitespace", in);
    r.check(xn::read(o, &n, &x), "rt:not-well-formed", x + " in " + o + " from " + in);
    r.check(match(m, n, &why), "rt:content-changed", why + " in " + mc::esc(o) + " from " + mc::esc(in));
    ElementPtr e2 = kmldom::Parse(o, &err); r.step();
    r.check(e2.get() != NULL, "rt:reparse-fails", o + " : " + err);
    r.check(equals(m, e2, &why, true), "rt:reparsed-values", why + " from " + o);
    r.eq(o, pretty ? kmldom::SerializePretty(e2) : kmldom::SerializeRaw(e2), "rt:not-a-fixpoint", in);
  }
  string os = kmldom::SerializePretty(e); std::ostringstream st; kmldom::XmlSerializer<std::ostream>::Serialize(e, "\n", "  ", &st);
  r.eq(os, st.str(), "rt:ostream-differs", in);
  r.check(!ws_in_empty(), "rt:empty-text-becomes-whitespace", in + " gives " + os);
}
static const Class& anyclass(Run& r) { auto& c = all()[r.pick(all().size())]; return c; }

static void single(Run& r) {
  const Class& c = anyclass(r); M m(c); int style = r.pick(2);
  int k = r.pick(c.f.size() + 1);
  if (k == (int)c.f.size()) { rt(r, m, style); return; }
  const Field& f = c.f[k];
  if (f.scalar()) { V v = values(f); if (f.kind == STR || f.kind == ASTR || f.kind == TEXT) { v.push_back("x&y<z>\"q\"'"); v.push_back("\xc3\xa9\xe2\x82\xac"); v.push_back(" lead trail "); }
    if (f.kind == ASTR) v.pop_back(), v.push_back("a  b"); m.sc[k] = r.of(v); }
  else if (f.complex()) m.ch[k].push_back(M(r.of(f.accept)));
  else { int n = 1 + r.pick(3); V v = values(f); for (int i = 0; i < n; ++i) m.sl[k].push_back(r.of(v)); }
  rt(r, m, style);
}
static void pairs(Run& r) {
  const Class& c = anyclass(r); int n = c.f.size(); if (n < 2) r.prune();
  int i = r.pick(n), j = r.pick(n); if (i >= j) r.prune();
  M m(c); put(m, i, "p"); put(m, j, "q"); rt(r, m, 2 * r.pick(2));
}
static void child(Run& r) {
  const Class& c = anyclass(r); vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex()) cx.push_back(i);
  if (cx.empty()) r.prune();
  int k = r.of(cx); M kid(r.of(c.f[k].accept)); if (kid.c->f.empty()) r.prune();
  int i = r.pick(kid.c->f.size()); put(kid, i, "deep", r.pick(kid.c->f[i].complex() ? kid.c->f[i].accept.size() : 1));
  M m(c); m.ch[k].push_back(kid); rt(r, m, 0);
}
static void lists(Run& r) {
  const Class& c = anyclass(r); vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].kind == LIST) cx.push_back(i);
  if (cx.empty()) r.prune();
  int k = r.of(cx), n = 2 + r.pick(2); M m(c);
  if (n == 3 && !thorough && c.f[k].accept.size() > 8) r.prune();
  for (int i = 0; i < n; ++i) m.ch[k].push_back(leaf(r.of(c.f[k].accept), string("k") + char('a' + i)));
  rt(r, m, 0);
}
static void full(Run& r) {  // everything present, minus at most one field
  const Class& c = anyclass(r); int skip = r.pick(c.f.size() + 1); M m(c);
  for (size_t i = 0; i < c.f.size(); ++i) if ((int)i != skip) { put(m, i, "f", 0); if (c.f[i].list()) put(m, i, "g", 1); }
  rt(r, m, r.pick(3));
}
// All container trees up to n features.
static void tree(Run& r, int n) {
  struct G { Run& r; int id; M go(int* left, bool top) {
    static const char* K[] = {"Placemark", "Folder", "Document", "NetworkLink"};
    --*left; M m(K[r.pick(top ? 3 : 4)]); m.set("name", "n" + str(id)); if (id % 2) m.set("id", "i" + str(id)); ++id;
    if (m.c->cls == "Folder" || m.c->cls == "Document") while (*left > 0 && r.flip()) m.add("feature", go(left, false));
    return m; } } g = {r, 0};
  int left = n; M k("kml"); k.add("feature", g.go(&left, true)); rt(r, k, 0);
}
// Chain of complex children down the schema graph, every path.
static void chain(Run& r, int depth) {
  M m(anyclass(r)); vector<M> path; path.push_back(m); vector<int> slot;
  for (int d = 0; d < depth; ++d) {
    const Class& c = *path.back().c; vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex()) cx.push_back(i);
    if (cx.empty()) break;
    int k = r.of(cx); slot.push_back(k); path.push_back(leaf(r.of(c.f[k].accept), string("d") + char('0' + d)));
  }
  for (size_t i = path.size() - 1; i > 0; --i) path[i-1].ch[slot[i-1]].push_back(path[i]);
  rt(r, path[0], 0);
}
// The old Link spelling, XML declarations and encodings of the input.
static void encodings(Run& r) {
  static const char* V8 = "\xc3\xa9x\xc3\xbf"; int e = r.pick(4); M m("Placemark"); string body;
  string fld = r.flip() ? "name" : "description"; m.set(fld, V8);
  if (e == 0) body = "<?xml version=\"1.0\"?>" + xn::write(to_xml(m));
  if (e == 1) body = "\xef\xbb\xbf" + xn::write(to_xml(m));
  if (e == 2) body = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?><Placemark><" + fld + ">\xe9x\xff</" + fld + "></Placemark>";
  if (e == 3) { string u = "<Placemark><" + fld + ">"; body = "\xfe\xff"; auto put = [&](const string& s) { for (char c : s) { body += '\0'; body += c; } };
    put("<?xml version=\"1.0\" encoding=\"UTF-16\"?>" + u); body += string("\0\xe9\0x\0\xff", 6); put("</" + fld + "></Placemark>"); }
  string err, why; r.nontrivial(); ElementPtr el = kmldom::Parse(body, &err); r.step();
  r.check(el.get(), "rt:encoding-parse", err); r.check(equals(m, el, &why, true), "rt:encoding-value", why);
  Node n; r.check(xn::read(kmldom::SerializeRaw(el), &n) && match(m, n, &why), "rt:encoding-out", why);
}
// Long lists, long texts and deep nesting, around every power of two.
static void scale_list(Run& r) {
  const Class& c = anyclass(r); vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].list()) cx.push_back(i); if (cx.empty()) r.prune();
  static const vector<int> S = {4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}; int k = r.of(cx), n = r.of(S); if (n == 257 && thorough) n = 1100; M m(c); const Field& f = c.f[k]; V v = f.complex() ? V() : values(f);
  for (int i = 0; i < n; ++i) if (f.complex()) m.ch[k].push_back(leaf(f.accept[i % f.accept.size()], "k" + str(i))); else m.sl[k].push_back(v[i * 7 % v.size()]);
  rt(r, m, 0);
}
static void scale_text(Run& r) {
  const Class& c = anyclass(r); int k = r.pick(c.f.size() + 1); if (k == (int)c.f.size()) r.prune(); const Field& f = c.f[k]; if (f.kind != STR && f.kind != ASTR && f.kind != TEXT) r.prune();
  int p = 3 + r.pick(14), n = (1 << p) - 1 + r.pick(3), what = r.pick(2); string t; for (int i = 0; (int)t.size() < n; ++i) t += what ? "abcdefg&hi<jklmnop\xc3\xa9"[i % 20] : char('a' + i % 26); t.back() = 'z'; if (t.size() > 1 && (t[t.size() - 2] & 0x80)) t[t.size() - 2] = 'y';
  M m(c); m.sc[k] = t; rt(r, m, 0);
}
static void scale_depth(Run& r) {
  static const vector<std::pair<string, string>> K = {{"Folder", "feature"}, {"Document", "feature"}, {"MultiGeometry", "geometry"}}; auto& k = r.of(K); int n = 1 + r.pick(94); M m = k.first == "MultiGeometry" ? leaf("Point", "x") : M("Placemark").set("name", "deep");
  for (int i = 0; i < n; ++i) { M o(k.first); if (i % 3 == 1) o.set("id", "i" + str(i)); o.add(k.second, m); m = o; } rt(r, m, 0);
}
void mc_setup() {
  rule("every class of the schema table with: each field alone over its value classes in three spellings, each pair of fields in both orders, each child kind with each of its fields, each list of up to three children over all accepted kinds, all fields together minus at most one, all container trees and all schema chains up to the depth; every list field with 4 to 257 (1100) items, every text field with lengths around each power of two up to 65537 and containers nested up to 94 deep; a case is non-trivial when the document was parsed and compared");
  assume("mc/schema.h is the reference schema; expat decides well-formedness; numbers compare to 15 significant digits");
  add("single", single); add("pairs", pairs, BOTH, 2); add("child", child, BOTH, 2); add("lists", lists, BOTH, 4); add("full", full);
  add("tree4", [](Run& r) { tree(r, 4); }, QUICK, 5); add("tree6", [](Run& r) { tree(r, 6); }, THOROUGH, 6);
  add("chain3", [](Run& r) { chain(r, 3); }, QUICK, 3); add("chain4", [](Run& r) { chain(r, 4); }, THOROUGH, 4);
  add("encodings", encodings); add("scale_list", scale_list, BOTH, 2); add("scale_text", scale_text, BOTH, 2); add("scale_depth", scale_depth);
}
