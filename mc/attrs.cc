// P33: attribute sets, namespaces and namespace-aware parsing.
#include "domgen.h"
#include <memory>
#include "kml/base/attributes.h"
#include "kml/base/xmlns.h"
#include "kml/base/xml_namespaces.h"
#include "kml/base/expat_handler_ns.h"
#include "kml/base/expat_handler.h"
#include "kml/base/expat_parser.h"
using namespace mc; using namespace dg;
typedef std::map<string, string> Map; typedef kmlbase::Attributes At; typedef vector<string> SV;
static string show(const Map& m) { string o; for (auto& k : m) o += k.first + "=" + mc::esc(k.second) + ";"; return o; }
static Map all_of(const At& a) { Map m; kmlbase::StringMapIterator it = a.CreateIterator(); for (; !it.AtEnd(); it.Advance()) m[it.Data().first] = it.Data().second; return m; }
static void same(Run& r, const Map& want, const At& a, const string& sig, const string& ctx) {
  r.eq(show(want), show(all_of(a)), sig, ctx); r.eq(want.size(), a.GetSize(), sig + "-size", ctx);
  SV n; n.push_back("kept"); a.GetAttrNames(&n); a.GetAttrNames(NULL); string w = "kept,", g; for (auto& k : want) w += k.first + ","; for (auto& s : n) g += s + ","; r.eq(w, g, sig + "-names", ctx);
  string ser = "before"; a.Serialize(&ser); a.Serialize(NULL); r.check(ser.compare(0, 6, "before") == 0, sig + "-append", ctx);
  Node x; string err; r.check(xn::read("<e" + ser.substr(6) + "/>", &x, &err), sig + "-serialized", ser + " " + err); r.eq(show(want), show(x.attr), sig + "-read-back", ser);
}
static const SV K = {"a", "b", "x:a", "x:b", "xx:a", "xmlns", "xmlns:p", "x"};
static const SV Vv = {"1", "", "v & <\"w\"'>\t\n", "0.5", "true"};
// Every history of operations against a map.
static void history(Run& r) {
  Map m; std::unique_ptr<At> a; int n = r.pick(4); SV in;
  static const vector<SV> start = {{}, {"a", "1"}, {"a", "1", "x:a", "2", "xmlns", "u"}, {"b", "1", "b", "2", "xmlns:p", "q", "x:b", "z"}, {"a", "1", "x:a"}};
  in = start[n == 3 ? 3 : n];
  if (r.flip()) { vector<const char*> c; for (auto& s : in) c.push_back(s.c_str()); c.push_back(NULL); a.reset(At::Create(&c[0])); } else a.reset(At::Create(in));
  r.check(a.get() != NULL, "attr:create", ""); for (size_t i = 0; i + 1 < in.size(); i += 2) m[in[i]] = in[i + 1];
  same(r, m, *a, "attr:create", ""); string ctx = show(m); int len = thorough ? 4 : 3; r.nontrivial();
  for (int s = 0; s < len; ++s) {
    int op = r.pick(7); r.step();
    if (op == 0) { const string& k = K[r.pick(4)]; const string& v = Vv[r.pick(3)]; a->SetString(k, v); m[k] = v; ctx += " set " + k; }
    else if (op == 1) { const string& k = K[r.pick(3)]; string g = "unset"; bool ok = a->CutValue(k, &g); ctx += " cut " + k; r.eq(m.count(k) > 0, ok, "attr:cut", ctx); r.eq(ok ? m[k] : string("unset"), g, "attr:cut-value", ctx); if (!ok) m.erase(k); m.erase(k); }
    else if (op == 2) { const string p = r.of({string("x"), string("xmlns"), string("zz")}); ctx += " split " + p; Map w; for (auto i = m.begin(); i != m.end();) if (i->first.compare(0, p.size() + 1, p + ":") == 0) { w[i->first.substr(p.size() + 1)] = i->second; m.erase(i++); } else ++i; std::unique_ptr<At> t(a->SplitByPrefix(p)); r.eq(!w.empty(), t.get() != NULL, "attr:split", ctx); if (t.get()) same(r, w, *t, "attr:split", ctx); }
    else if (op == 3) { ctx += " merge"; Map w = {{"a", "merged"}, {"x:b", ""}, {"new", "n"}}; if (r.flip()) w.clear(); At o; for (auto& k : w) o.SetValue(k.first, k.second); a->MergeAttributes(o); for (auto& k : w) m[k.first] = k.second; same(r, w, o, "attr:merge-source", ctx); }
    else if (op == 4) { ctx += " clone"; std::unique_ptr<At> c(a->Clone()); same(r, m, *c, "attr:clone", ctx); c->SetString("only-in-clone", "1"); same(r, m, *a, "attr:clone-shares", ctx); if (r.flip()) { c->SetString("a", "c"); a.swap(c); m["only-in-clone"] = "1"; m["a"] = "c"; } }
    else if (op == 5) { int t = r.pick(4); ctx += " typed"; if (t == 0) { a->SetValue("a", true); m["a"] = "1"; } else if (t == 1) { a->SetValue("b", -7); m["b"] = "-7"; } else if (t == 2) { a->SetValue("a", 2.5); m["a"] = "2.5"; } else { a->SetValue("x:a", "lit"); m["x:a"] = "lit"; } }
    else { ctx += " merge-self"; a->MergeAttributes(*a); }
    same(r, m, *a, "attr:state", ctx); r.state(show(m));
    for (auto& k : K) { string g = "unset"; bool ok = a->FindValue(k, &g); r.eq(m.count(k) > 0, ok, "attr:find", ctx + " " + k); r.eq(ok ? m[k] : string("unset"), g, "attr:value", ctx); g = "unset"; r.eq(ok, a->GetString(k, &g), "attr:get-string", ctx); r.eq(ok ? m[k] : string("unset"), g, "attr:get-string", ctx); r.eq(ok, a->FindValue(k, NULL), "attr:find-null", ctx); double d = -99; if (a->GetDouble(k, &d)) r.eq(strtod(m[k].c_str(), NULL), d, "attr:get-double", ctx + k); bool b = false; if (a->GetBool(k, &b)) r.eq(m[k] == "1" || m[k] == "true", b, "attr:get-bool", ctx + " " + k + m[k]); }
    for (auto& v : Vv) { string key = "unset"; bool ok = a->FindKey(v, &key); bool want = false; for (auto& k : m) if (k.second == v) want = true; r.eq(want, ok, "attr:find-key", ctx); if (ok) r.check(m.count(key) && m[key] == v, "attr:key", ctx); else r.eq("unset", key, "attr:key", ctx); }
  }
  r.say(ctx);
}
static void odd(Run& r) { int n = r.pick(6); bool c = r.flip(); SV in; Map m; for (int i = 0; i < n; ++i) in.push_back(i % 2 ? "v" + mc::str(i) : "k" + mc::str(i)); for (int i = 0; i + 1 < n; i += 2) m[in[i]] = in[i + 1]; r.nontrivial(); r.step(); std::unique_ptr<At> a; if (c) { vector<const char*> p; for (auto& s : in) p.push_back(s.c_str()); p.push_back(NULL); a.reset(At::Create(&p[0])); } else a.reset(At::Create(in)); r.check(a.get() != NULL, "attr:odd", ""); same(r, m, *a, "attr:odd", mc::str(n)); }
// Events of a handler: namespace starts and ends are balanced and names qualified.
class Rec : public kmlbase::ExpatHandler { public: string log; int depth = 0; void StartElement(const string& n, const kmlbase::StringVector& a) { log += "<" + n; for (auto& s : a) log += " " + s; ++depth; } void EndElement(const string& n) { log += ">" + n; --depth; } void CharData(const string& s) { log += "'" + s; } void StartNamespace(const string& p, const string& u) { log += "+" + p + "=" + u; } void EndNamespace(const string& p) { log += "-" + p; } };
// Prefix table.
static void xmlns(Run& r) {
  static const SV P = {"", "a", "b", "atom"}, U = {"u:one", "u:two", "http://www.w3.org/2005/Atom"}; At a; Map m; string dflt;
  for (auto& p : P) { int u = r.pick((int)U.size() + 1); if (u) { if (p.empty()) { a.SetValue("xmlns", U[u - 1]); dflt = U[u - 1]; } else { a.SetValue("xmlns:" + p, U[u - 1]); m[p] = U[u - 1]; } } }
  bool other = r.flip(); if (other) a.SetValue("id", "x"); size_t before = a.GetSize(); r.nontrivial(); r.step(); string ctx = "default=" + dflt + " " + show(m); r.say(ctx); r.state(ctx);
  std::unique_ptr<kmlbase::Xmlns> x(kmlbase::Xmlns::Create(a)); r.eq(!dflt.empty() || !m.empty(), x.get() != NULL, "xmlns:create", ctx); r.eq(before, a.GetSize(), "xmlns:input-changed", ctx); if (!x.get()) return;
  r.eq(dflt, x->get_default(), "xmlns:default", ctx); for (auto& p : P) if (!p.empty()) r.eq(m.count(p) ? m[p] : string(), x->GetNamespace(p), "xmlns:namespace", ctx + p);
  SV ps; x->GetPrefixes(&ps); string w, g; for (auto& k : m) w += k.first + ","; for (auto& s : ps) g += s + ","; r.eq(w, g, "xmlns:prefixes", ctx);
  Rec none; kmlbase::ExpatHandlerNs h(&none, x.get());
  for (auto& u : U) { std::set<string> ks; for (auto& k : m) if (k.second == u) ks.insert(k.first); string k = x->GetKey(u); r.check(ks.empty() ? k.empty() : ks.count(k) > 0, "xmlns:key", ctx + u + " " + k);
    string t = h.TranslatePrefixedName(u + "|nm"); if (u == dflt) r.eq("nm", t, "xmlns:translate-default", ctx); else if (ks.empty()) r.eq(u + "|nm", t, "xmlns:translate-unknown", ctx); else r.check(ks.count(t.substr(0, t.find(':'))) && t.substr(t.find(':')) == ":nm", "xmlns:translate", ctx + t); }
  r.eq("plain", h.TranslatePrefixedName("plain"), "xmlns:translate-plain", ctx);
}
static void table(Run& r) {
  int id = r.pick(kmlbase::XMLNS_XSI + 1); string p = "unset", u = "unset"; bool ok = kmlbase::FindXmlNamespaceAndPrefix((kmlbase::XmlnsId)id, &p, &u); r.nontrivial(); r.step(); bool in = id > kmlbase::XMLNS_NONE && id <= kmlbase::XMLNS_XSI;
  r.eq(in, ok, "xmlns:table", mc::str(id)); r.eq(ok, kmlbase::FindXmlNamespaceAndPrefix((kmlbase::XmlnsId)id, NULL, NULL), "xmlns:table-null", ""); if (!ok) return;
  for (int j = 1; j <= kmlbase::XMLNS_XSI; ++j) if (j != id) { string q, v; kmlbase::FindXmlNamespaceAndPrefix((kmlbase::XmlnsId)j, &q, &v); r.check(q != p && v != u, "xmlns:table-not-unique", p); }
  static const Map w = {{"atom", "http://www.w3.org/2005/Atom"}, {"gx", "http://www.google.com/kml/ext/2.2"}, {"xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"}, {"kml", "http://www.opengis.net/kml/2.2"}, {"xml", "http://www.w3.org/XML/1998/namespace"}, {"xsd", "http://www.w3.org/2001/XMLSchema"}, {"xsi", "http://www.w3.org/2001/XMLSchema-instance"}, {"gpx", "http://www.topografix.com/GPX/1/0"}, {"gml", "http://www.opengis.net/gml"}, {"georss", "http://www.georss.org/georss"}, {"app", "http://www.w3.org/2007/app"}};
  if (w.count(p)) r.eq(w.at(p), u, "xmlns:table-uri", p);
}
// One document under every choice of prefixes.
static const string KML = "http://www.opengis.net/kml/2.2", ATOM = "http://www.w3.org/2005/Atom";
struct Names { string k, a; };   // prefixes ("" = default namespace)
static string decl(const string& p, const string& u) { return p.empty() ? " xmlns=\"" + u + "\"" : " xmlns:" + p + "=\"" + u + "\""; }
static Node rename(const Node& n, const Names& cur, Run& r, int depth, bool redeclare) {
  bool atom = n.name.compare(0, 5, "atom:") == 0; string local = atom ? n.name.substr(5) : n.name; Node o = n; o.kid.clear(); Names here = cur;
  if (redeclare && depth == 1) { here.k = r.of({string(""), string("q"), string("a")}); here.a = r.of({string(""), string("z"), string("k")}); if (here.a == here.k) r.prune(); o.attr[here.k.empty() ? "xmlns" : "xmlns:" + here.k] = KML; o.attr[here.a.empty() ? "xmlns" : "xmlns:" + here.a] = ATOM; }
  const string& p = atom ? here.a : here.k; o.name = p.empty() ? local : p + ":" + local; for (auto& k : n.kid) o.kid.push_back(rename(k, here, r, depth + 1, redeclare)); return o;
}
static Node parse_node(const string& s) { Node n; string e; if (!xn::read(s, &n, &e)) abort(); return n; }
static void strip(Node* n) { for (auto i = n->attr.begin(); i != n->attr.end();) if (i->first == "xmlns" || i->first.compare(0, 6, "xmlns:") == 0) n->attr.erase(i++); else ++i; for (auto& k : n->kid) strip(&k); }
static void prefixed(Run& r, bool atom) {
  static const SV kmls = {"<kml><Placemark id=\"i\"><name>n</name><Point><coordinates>1,2,3</coordinates></Point></Placemark></kml>", "<Document><Style id=\"s\"><IconStyle><Icon><href>h</href></Icon></IconStyle></Style><Folder><visibility>0</visibility><description>a&lt;b</description></Folder></Document>", "<Placemark><Snippet maxLines=\"3\">x</Snippet><ExtendedData><Data name=\"d\"><value>v</value></Data></ExtendedData></Placemark>"};
  static const SV atoms = {"<atom:feed><atom:title>t</atom:title><atom:entry><atom:id>i</atom:id><atom:content src=\"s\" type=\"y\"/></atom:entry></atom:feed>", "<atom:entry><atom:link href=\"h\" rel=\"self\"/><atom:category term=\"t\" scheme=\"s\"/><atom:content><Placemark><name>n</name><atom:author><atom:name>me</atom:name></atom:author></Placemark></atom:content></atom:entry>", "<atom:feed><atom:entry><atom:content><Folder><Placemark><name>n</name></Placemark></Folder></atom:content></atom:entry><atom:entry/></atom:feed>", "<kml><Placemark><atom:author><atom:email>e</atom:email></atom:author><atom:link href=\"x\"/></Placemark></kml>"};
  const string& src = atom ? r.of(atoms) : r.of(kmls); static const SV P = {"", "k", "a", "kml", "x-y"};
  Names nm; nm.k = r.of(P); nm.a = r.of(P); if (nm.k == nm.a) r.prune(); bool re = r.flip();
  Node n = rename(parse_node(src), nm, r, 0, re); n.attr[nm.k.empty() ? "xmlns" : "xmlns:" + nm.k] = KML; n.attr[nm.a.empty() ? "xmlns" : "xmlns:" + nm.a] = ATOM;
  string in = xn::write(n), err; r.say(in); r.nontrivial(); r.step(); r.state(in);
  ElementPtr want = kmldom::Parse(src, &err); r.check(want.get() != NULL, "ns:oracle", src);
  ElementPtr got = atom ? kmldom::ParseAtom(in, &err) : kmldom::ParseNS(in, &err); r.check(got.get() != NULL, "ns:parse", err + " " + in);
  Node a, b; r.check(xn::read(kmldom::SerializeRaw(want), &a) && xn::read(kmldom::SerializeRaw(got), &b, &err), "ns:not-well-formed", err + in); strip(&b);
  r.check(eq_node(a, b), "ns:prefix-matters", in + " -> " + kmldom::SerializeRaw(got)); r.eq(want->Type(), got->Type(), "ns:type", in);
  if (!atom) { ElementPtr g2 = kmldom::ParseAtom(in, &err); r.check(g2.get() != NULL, "ns:parse-atom-of-kml", err); Node c; xn::read(kmldom::SerializeRaw(g2), &c); strip(&c); r.check(eq_node(a, c), "ns:prefix-matters-atom", in); }
}
// The same local names outside the KML namespace are not KML (ParseAtom).
static void foreign_ns(Run& r) {
  bool outer = r.flip(); string ns = r.of({string("http://other/"), string("http://www.opengis.net/kml/2.2/"), string("")}); string in = "<k:Placemark xmlns:k=\"" + KML + "\"><k:name>n</k:name><name xmlns=\"" + ns + "\">other</name></k:Placemark>";
  if (outer) in = "<Placemark xmlns=\"http://other/\"/>"; r.nontrivial(); r.step(); r.say(in); string err; ElementPtr e = kmldom::ParseAtom(in, &err);
  if (outer) { r.check(!e && !err.empty(), "ns:foreign-root", in); return; }
  r.check(e.get() != NULL, "ns:foreign", err); if (!ns.empty()) r.eq("n", kmldom::AsPlacemark(e)->get_name(), "ns:foreign-name-taken", in);
}
static void events(Run& r) {
  int d1 = r.pick(4), d2 = r.pick(4); static const SV D = {"", " xmlns=\"u1\"", " xmlns:p=\"u2\"", " xmlns=\"u3\""}; bool pre = (d1 == 2 || d2 == 2) && r.flip();
  string in = "<a" + D[d1] + " k=\"v\">t<" + string(pre ? "p:" : "") + "b" + D[d2] + "/></a>"; r.nontrivial(); r.step(); r.say(in);
  auto q = [&](const string& n, bool pf, bool inner) { if (pf) return string("u2|") + n; string u = (inner && (d2 == 1 || d2 == 3)) ? (d2 == 1 ? "u1" : "u3") : (d1 == 1 ? "u1" : d1 == 3 ? "u3" : ""); return u.empty() ? n : u + "|" + n; };
  auto st = [&](int d) { return d == 0 ? string() : d == 2 ? string("+p=u2") : string("+=") + (d == 1 ? "u1" : "u3"); }; auto en = [&](int d) { return d == 0 ? string() : d == 2 ? string("-p") : string("-"); };
  string want = st(d1) + "<" + q("a", false, false) + " k v" + "'t" + st(d2) + "<" + q("b", pre, true) + ">" + q("b", pre, true) + en(d2) + ">" + q("a", false, false) + en(d1);
  Rec h; string err; r.check(kmlbase::ExpatParser::ParseString(in, &h, &err, true), "events:parse", err + in); r.eq(want, h.log, "events:namespaced", in); r.eq(0, h.depth, "events:balance", in);
  Rec g; r.check(kmlbase::ExpatParser::ParseString(in, &g, &err, false), "events:parse-plain", err); r.check(g.log.find('+') == string::npos && g.log.find("<a") == 0, "events:plain", g.log);
}
void mc_setup() {
  rule("every history of up to 3 (thorough 4) operations on an attribute set against a map; every small prefix table; every choice of prefixes and nested redeclarations for KML and Atom documents must parse to the same elements.");
  add("history", history, BOTH, 3); add("odd", odd); add("xmlns", xmlns); add("table", table, BOTH, 1); add("prefixed", [](Run& r) { prefixed(r, false); }); add("prefixed-atom", [](Run& r) { prefixed(r, true); }); add("foreign-ns", foreign_ns, BOTH, 1); add("events", events, BOTH, 1);
}
