// P31: namespaces declared by written documents; old-style schemas.
#include "domgen.h"
#include <memory>
#include "kml/engine/kml_file.h"
#include "kml/engine/find_xml_namespaces.h"
#include "kml/engine/parse_old_schema.h"
#include "kml/engine/old_schema_parser_observer.h"
#include "kml/engine/schema_parser_observer.h"
#include "kml/dom/parser.h"
#include "kml/base/attributes.h"
using namespace mc; using namespace dg;
typedef std::map<string, string> NS;
static const NS& std_ns() {
  static NS m = {{"atom", "http://www.w3.org/2005/Atom"}, {"gx", "http://www.google.com/kml/ext/2.2"}, {"xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"}, {"", "http://www.opengis.net/kml/2.2"}};
  return m;
}
static void prefixes(const Node& n, std::set<string>* out) { size_t c = n.name.find(':'); out->insert(c == string::npos ? "" : n.name.substr(0, c)); for (auto& k : n.kid) prefixes(k, out); }
static NS take(Node* n) { NS d; for (auto i = n->attr.begin(); i != n->attr.end();) { if (i->first == "xmlns") { d[""] = i->second; n->attr.erase(i++); } else if (i->first.compare(0, 6, "xmlns:") == 0) { d[i->first.substr(6)] = i->second; n->attr.erase(i++); } else ++i; } return d; }
static string show(const NS& n) { string o; for (auto& k : n) o += k.first + "=" + k.second + " "; return o; }
// Strip the namespace URI that a namespace aware reader puts before each name.
static string local(const string& s) { size_t p = s.rfind('|'); return p == string::npos ? s : s.substr(p + 1); }
static void uris(const Node& n, const Node& plain, Run& r, const string& ctx) {
  size_t c = plain.name.find(':'); string p = c == string::npos ? "" : plain.name.substr(0, c);
  if (std_ns().count(p)) r.eq(std_ns().at(p) + "|" + (c == string::npos ? plain.name : plain.name.substr(c + 1)), n.name, "ns:element-in-wrong-namespace", ctx);
  for (size_t i = 0; i < n.kid.size() && i < plain.kid.size(); ++i) uris(n.kid[i], plain.kid[i], r, ctx);
}
// want: the declarations of the root that must be there before counting use.
static void written(Run& r, kmlengine::KmlFile* kf, const Node& content, const NS& declared, const string& ctx) {
  string out, err; r.step();
  r.check(kf->SerializeToString(&out), "ns:not-written", ctx);
  string head = "<?xml version=\"1.0\" encoding=\"" + kf->get_encoding() + "\"?>\n";
  r.check(out.compare(0, head.size(), head) == 0, "ns:header", esc(out.substr(0, 80)));
  r.eq(head, kf->CreateXmlHeader(), "ns:header-accessor");
  string body = out.substr(head.size()); Node n, q;
  r.check(xn::read(body, &n, &err), "ns:not-well-formed", err + " " + ctx + " -> " + esc(body));
  r.check(xn::read(body, &q, &err, true), "ns:reader-refuses", err + " " + ctx + " -> " + esc(body));
  std::set<string> used; prefixes(content, &used);
  NS want = declared; for (auto& p : used) if (std_ns().count(p)) want[p] = std_ns().at(p);
  NS got = take(&n); uris(q, n, r, esc(body));
  r.eq(show(want), show(got), "ns:declarations", ctx + " -> " + esc(body));
  std::ostringstream os; r.check(kf->SerializeToOstream(&os), "ns:ostream-not-written", ctx); r.eq(out, os.str(), "ns:ostream-differs", ctx);
  string again; kf->SerializeToString(&again); r.eq(out, again, "ns:not-idempotent", ctx);
  r.state(show(got));
}
static void imported(Run& r, const M& m) {
  ElementPtr e = to_dom(m); Node x = to_xml(m); string ctx = xn::write(x); r.say(ctx); r.nontrivial();
  string bare = kmldom::SerializePretty(e);
  kmlbase::Attributes a; kmlengine::FindXmlNamespaces(e, &a); r.step();
  std::set<string> used; prefixes(x, &used); NS want, got; for (auto& p : used) want[p.empty() ? "kml" : p] = std_ns().at(p);
  kmlbase::StringMapIterator it = a.CreateIterator(); for (; !it.AtEnd(); it.Advance()) got[it.Data().first] = it.Data().second;
  r.eq(show(want), show(got), "ns:found", ctx);
  std::unique_ptr<kmlengine::KmlFile> kf(kmlengine::KmlFile::CreateFromImportLax(e)); r.check(kf.get() != NULL, "ns:import", ctx);
  written(r, kf.get(), x, NS(), ctx);
  // Nothing but declarations of the root changed.
  Node n1, n2; string err; xn::read(bare, &n1, &err); xn::read(kmldom::SerializePretty(e), &n2, &err); take(&n2); r.check(eq_node(n1, n2), "ns:content-changed", ctx);
  // The same document read back.
  std::unique_ptr<kmlengine::KmlFile> kg(kmlengine::KmlFile::CreateFromParse(bare, &err)); r.check(kg.get() != NULL, "ns:parse", err + " " + ctx);
  written(r, kg.get(), x, NS(), ctx);
}
static void ns_one(Run& r) {
  const Class& c = r.of(all()); M m(keyof(c));
  int i = r.pick((int)c.f.size() + 1); if (i) put(m, i - 1, "v", 0);
  imported(r, rooted(m));
}
static void ns_accept(Run& r) {   // every class a slot accepts
  const Class& c = r.of(all()); if (c.f.empty()) r.prune(); int i = r.pick((int)c.f.size()); if (!c.f[i].complex()) r.prune();
  int a = r.pick((int)c.f[i].accept.size()); M m(keyof(c)); put(m, i, "v", a);
  imported(r, rooted(m));
}
static void ns_two(Run& r) {
  const Class& c = r.of(all()); if (c.f.empty()) r.prune(); int i = r.pick((int)c.f.size()); int j = r.pick((int)c.f.size()); if (j <= i) r.prune();
  M m(keyof(c)); put(m, i, "v", 0); put(m, j, "v", 0); imported(r, rooted(m));
}
static void ns_nested(Run& r) {
  const Class& c = r.of(all()); if (c.f.empty()) r.prune(); int i = r.pick((int)c.f.size()); if (!c.f[i].complex()) r.prune();
  const string& k = r.of(c.f[i].accept); const Class& d = key(k); if (d.f.empty()) r.prune();
  int j = r.pick((int)d.f.size()); M in(k); put(in, j, "v", 0);
  M m(keyof(c)); m.add(c.f[i].api, in); imported(r, rooted(m));
}
// A document that declares some namespaces itself.
static void ns_declared(Run& r) {
  static const vector<std::pair<string, string>> decl = {{"xmlns", "http://www.opengis.net/kml/2.2"}, {"xmlns:gx", "http://www.google.com/kml/ext/2.2"}, {"xmlns:atom", "http://www.w3.org/2005/Atom"}, {"xmlns:xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"}, {"xmlns:foo", "http://foo.example/ns"}};
  Node root(r.flip() ? "kml" : "Document"); NS have;
  for (auto& d : decl) if (r.flip()) { root.attr[d.first] = d.second; have[d.first == "xmlns" ? "" : d.first.substr(6)] = d.second; }
  Node pm("Placemark"); 
  if (r.flip()) { Node n("atom:author"); n.add(Node("atom:name", "n")); pm.add(n); }
  if (r.flip()) { Node n("xal:AddressDetails"); n.add(Node("xal:Country")); pm.add(n); }
  if (r.flip()) { Node n("Point"); n.add(Node("gx:altitudeMode", "clampToSeaFloor")); pm.add(n); }
  int foo = r.pick(3); Node u("foo:x", "t");
  if (foo == 1) { if (!have.count("foo")) u.attr["xmlns:foo"] = "http://foo.example/inner"; pm.add(u); }
  if (foo == 2) { pm.attr["xmlns:bar"] = "http://bar.example/"; pm.add(Node("bar:y")); }
  Node doc = root; if (root.name == "Document") doc.add(pm); else { Node d("Document"); d.add(pm); doc.add(d); }
  string in = xn::write(doc), err; r.say(in); r.nontrivial();
  std::unique_ptr<kmlengine::KmlFile> kf(kmlengine::KmlFile::CreateFromParse(in, &err)); r.check(kf.get() != NULL, "ns:parse", err + " " + in);
  if (r.flip()) kf->set_encoding("UTF-8");
  written(r, kf.get(), doc, have, in);
}
// ---- typed placemarks
struct Item { string old_form, modern; };
static string fld(const string& n, const string& v) { return "<" + n + ">" + v + "</" + n + ">"; }
static string sd(const vector<std::pair<string, string>>& v) { string o; for (auto& x : v) o += "<SimpleData name=\"" + x.first + "\">" + x.second + "</SimpleData>"; return o; }
static Item typed(const string& S, const string& attr, const vector<string>& parts, const string& fields) {
  // parts: n name, p Point, e ExtendedData; any other letter: a field of the schema if listed, else unknown content
  string a, name, pt, ext, unk; vector<std::pair<string, string>> d; int k = 0;
  for (auto& p : parts) {
    string v = "v" + mc::str(k++);
    if (p == "n") { a += fld("name", v); name = fld("name", v); }
    else if (p == "p") { pt = "<Point><coordinates>1,2,3</coordinates></Point>"; a += pt; }
    else if (p == "e") { ext = "<Data name=\"d\"><value>" + v + "</value></Data>"; a += "<ExtendedData>" + ext + "</ExtendedData>"; }
    else { if (p == "G") v = "a &amp; " + v; a += fld(p, v); if (fields.find(p) != string::npos) d.push_back({p, v}); else unk += fld(p, v); }
  }
  return {"<" + S + attr + ">" + a + "</" + S + ">", "<Placemark" + attr + ">" + name + "<ExtendedData>" + ext + "<SchemaData schemaUrl=\"" + S + "_id\">" + sd(d) + "</SchemaData></ExtendedData>" + pt + unk + "</Placemark>"};
}
static const vector<vector<string>>& contents() {
  static vector<vector<string>> v = {{}, {"F"}, {"F", "G"}, {"G", "F"}, {"n", "F"}, {"F", "n", "p", "G"}, {"p"}, {"e", "F"}, {"F", "e"}, {"U"}, {"F", "U", "F"}};
  return v;
}
static Item item(Run& r, const string& fields, bool nest = true) {
  int k = r.pick((int)contents().size() + (nest ? 7 : 5)); int n = (int)contents().size();
  if (k < n) return typed("S", k % 2 ? " id=\"i" + mc::str(k) + "\"" : "", contents()[k], fields);
  k -= n;
  if (k == 0) return {"<Placemark><name>q</name></Placemark>", "<Placemark><name>q</name></Placemark>"};
  if (k == 1) { string s = "<Placemark><name>q</name><F>lost?</F></Placemark>"; return {s, s}; }
  if (k == 2) { string s = "<F>stray</F>"; return {s, s}; }
  if (k == 3) { string s = "<Placemark><Point><G>x</G><coordinates>4,5,6</coordinates></Point></Placemark>"; return {s, s}; }
  if (k == 4) { string s = "<Schema id=\"m\" name=\"M\"><SimpleField type=\"string\" name=\"U\"/></Schema>"; return {s, s}; }
  Item a = item(r, fields, false); if (k == 5) return {"<Folder>" + a.old_form + "</Folder>", "<Folder>" + a.modern + "</Folder>"};
  Item b = item(r, fields, false); return {"<Folder><Folder>" + a.old_form + "</Folder>" + b.old_form + "</Folder>", "<Folder><Folder>" + a.modern + "</Folder>" + b.modern + "</Folder>"};
}
static string erase_all(string s, const string& w) { for (size_t p; (p = s.find(w)) != string::npos;) s.erase(p, w.size()); return s; }
static void old_docs(Run& r, int len) {
  static const vector<string> fs = {"FG", "F", ""}; const string& f = r.of(fs);
  string o = "<kml><Document><Schema name=\"S\" parent=\"Placemark\">", m = "<kml><Document><Schema id=\"S_id\" name=\"S\">", mid;
  for (char c : f) mid += string("<SimpleField name=\"") + c + "\" type=\"string\"/>";
  mid += "</Schema>"; o += mid; m += mid;
  for (int i = 0; i < len; ++i) { Item x = item(r, f, len < 3); o += x.old_form; m += x.modern; }
  o += "</Document></kml>"; m += "</Document></kml>"; r.say(o); r.nontrivial(); r.step(2); string err;
  ElementPtr a = kmldom::Parse(o, &err); r.check(a.get() != NULL, "old:parse", err + " " + o);
  ElementPtr b = kmldom::Parse(m, &err); r.check(b.get() != NULL, "old:oracle", err + " " + m);
  r.eq(kmldom::SerializeRaw(b), erase_all(kmldom::SerializeRaw(a), " parent=\"Placemark\""), "old:differs-from-modern-form", o);
  r.state(kmldom::SerializeRaw(a));
  // The file interface sees the same placemarks.
  if (len < 2) { std::unique_ptr<kmlengine::KmlFile> kf(kmlengine::KmlFile::CreateFromParse(o, &err)); r.check(kf.get() != NULL, "old:file", err); string s1, s2 = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; kf->SerializeToString(&s1); r.check(s1.find("<SchemaData") == string::npos || s1.find("S_id") != string::npos, "old:file-differs", s1); }
}
// Two old schemas: the last one wins.
static void old_two(Run& r) {
  string o = "<Document>", m = o, last; string fields; vector<string> used;
  for (int i = 0; i < 2; ++i) {
    last = r.flip() ? "S" : "T"; fields = r.flip() ? "F" : "G";
    string mid = "<SimpleField name=\"" + fields + "\" type=\"string\"/></Schema>";
    o += "<Schema name=\"" + last + "\" parent=\"Placemark\">" + mid; m += "<Schema id=\"" + last + "_id\" name=\"" + last + "\">" + mid;
    if (r.flip()) break;
  }
  string other = last == "S" ? "T" : "S";
  for (int i = 0; i < 2; ++i) {
    const vector<string>& c = r.of(contents());
    if (r.flip()) { Item x = typed(last, "", c, fields); o += x.old_form; m += x.modern; }
    else { Item x = typed(other, "", c, fields); o += x.old_form; m += x.old_form; }
  }
  o += "</Document>"; m += "</Document>"; r.say(o); r.nontrivial(); r.step(2); string err;
  ElementPtr a = kmldom::Parse(o, &err); r.check(a.get() != NULL, "old:parse", err + " " + o);
  ElementPtr b = kmldom::Parse(m, &err); r.check(b.get() != NULL, "old:oracle", err + " " + m);
  r.eq(kmldom::SerializeRaw(b), erase_all(kmldom::SerializeRaw(a), " parent=\"Placemark\""), "old:last-schema-wins", o);
}
// ConvertOldSchema on every short arrangement of tags and text.
static void convert(Run& r) {
  static const vector<string> tok = {"<S>", "</S>", "<T>", "</T>", "<name>n</name>", "x"};
  kmlengine::SchemaNameMap map; bool known = r.flip(); if (known) map["S"] = kmldom::KmlFactory::GetFactory()->CreateSchema();
  vector<string> t; int n = r.pick(thorough ? 6 : 5); string xml; for (int i = 0; i < n; ++i) { t.push_back(r.of(tok)); xml += t.back(); }
  r.say(xml); r.nontrivial(); r.step();
  // Converted iff it begins with <S>, S is a schema and <S> is closed; the first close ends it.
  bool want = known && n && t[0] == "<S>"; string body; 
  if (want) { int e = -1; for (int i = 1; i < n && e < 0; ++i) if (t[i] == "</S>") e = i; want = e > 0; for (int i = 1; i < e; ++i) body += t[i]; }
  string out = "untouched"; bool got = kmlengine::ConvertOldSchema(xml, map, &out);
  r.eq(want, got, "convert:accepted", xml); r.eq(want ? "<Placemark>" + body + "</Placemark>" : string("untouched"), out, "convert:result", xml);
  r.eq(false, kmlengine::ConvertOldSchema(xml, map, NULL), "convert:null");
  string err; kmldom::PlacemarkPtr p = kmlengine::ParseOldSchema(xml, map, &err); ElementPtr q; if (want) q = kmldom::Parse("<Placemark>" + body + "</Placemark>", NULL);
  r.eq(q.get() != NULL, p.get() != NULL, "convert:parsed", xml); if (p) r.eq(kmldom::SerializeRaw(q), kmldom::SerializeRaw(p), "convert:placemark", xml);
}
// Schema and typed-placemark observers together.
static void observers(Run& r) {
  kmlengine::SchemaNameMap map; kmlengine::SchemaParserObserver so(&map); kmlengine::OldSchemaParserObserver oo(map);
  kmldom::Parser parser; parser.AddObserver(&so); parser.AddObserver(&oo);
  int named = r.pick(4); string doc = "<kml><Document>"; std::map<string, string> last;
  if (named & 1) { doc += "<Schema name=\"S\" id=\"a\"/>"; last["S"] = "a"; }
  if (named & 2) { doc += "<Schema name=\"T\" id=\"b\"/><Schema id=\"c\"/>"; last["T"] = "b"; }
  if (r.flip()) { doc += "<Schema name=\"S\" id=\"d\"/>"; last["S"] = "d"; }
  bool folder = r.flip(); if (folder) doc += "<Folder>";
  vector<string> conv, plain; int n = r.pick(3) + 1;
  for (int i = 0; i < n; ++i) { string nm = "n" + mc::str(i); int k = r.pick(3); if (k == 2) { doc += "<Placemark><name>" + nm + "</name></Placemark>"; plain.push_back(nm); } else { string T = k ? "T" : "S"; doc += "<" + T + "><name>" + nm + "</name></" + T + ">"; if (last.count(T)) conv.push_back(nm); } }
  if (folder) doc += "</Folder>"; doc += "</Document></kml>"; r.say(doc); r.nontrivial(); r.step(); string err;
  ElementPtr e = parser.Parse(doc, &err); r.check(e.get() != NULL, "observe:parse", err);
  r.eq(last.size(), map.size(), "observe:schemas", doc); for (auto& k : last) r.check(map.count(k.first) && map[k.first]->get_id() == k.second, "observe:last-schema", doc);
  kmldom::ContainerPtr c = kmldom::AsContainer(kmldom::AsKml(e)->get_feature()); if (folder) c = kmldom::AsContainer(c->get_feature_array_at(0));
  vector<string> want = plain; want.insert(want.end(), conv.begin(), conv.end()); string w, g; for (auto& s : want) w += s + " ";
  for (size_t i = 0; i < c->get_feature_array_size(); ++i) g += c->get_feature_array_at(i)->get_name() + " "; r.eq(w, g, "observe:placemarks", doc);
}
void mc_setup() {
  rule("every element with every slot, slot pair, nested slot and accepted child is written as a file; the declared namespaces must be exactly those used (plus those declared before) and a namespace-aware reader must agree. Documents of up to 3 typed placemarks/other items against their modern form.");
  add("one", ns_one); add("accept", ns_accept); add("two", ns_two); add("nested", ns_nested); add("declared", ns_declared, BOTH, 4);
  add("old1", [](Run& r) { old_docs(r, 1); }); add("old2", [](Run& r) { old_docs(r, 2); }, BOTH, 3); add("old3", [](Run& r) { old_docs(r, 3); }, BOTH, 3);
  add("old-two", old_two); add("convert", convert); add("observers", observers);
}
