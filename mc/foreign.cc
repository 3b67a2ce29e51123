// P03: unknown and misplaced content.
#include "domgen.h"
using namespace mc; using namespace dg;

static Node N(const string& n, const string& t = "") { return Node(n, t); }
static Node with(Node n, const vector<Node>& k) { n.kid = k; return n; }
static Node at(Node n, const string& a, const string& v) { n.attr[a] = v; return n; }
static const vector<Node>& shapes() {
  static vector<Node> v = {
    N("foo"), N("foo", "plain"), N("x:foo", "a & b < c > d \"q\" 'r' ]]>"), at(N("foo"), "k", "v"), at(at(N("foo", " "), "k", "a&b<c>\"d\"'e'"), "x:l", "two\nlines\t"),
    with(N("foo"), {N("bar", "t")}), with(N("foo"), {N("name", "inner"), N("Placemark")}),
    with(N("foo"), {with(N("Placemark"), {N("name", "n"), N("description", "d"), with(N("Point"), {N("coordinates", "1,2,3")})})}),
    with(N("foo"), {N("description", "one"), N("description", "two")}), with(N("foo"), {with(N("description"), {N("description", "nested")})}),
    with(N("foo"), {with(N("foo"), {with(N("foo"), {N("foo", "deep")})})}), with(N("foo"), {N("Schema"), N("IconStyle")}), at(N("foo", "\xc3\xa9\n x"), "\xc3\xa4", "\xe2\x82\xac"),
    with(at(N("Foo"), "id", "i"), {N("Icon", "x"), N("coordinates", "9,9")}), N("names", "x"), N("placemark", "lower")};
  return v;
}
static const vector<const Class*>& classes() { static vector<const Class*> v; if (v.empty()) for (auto& c : all()) if (c.cls != "IconStyleIcon") v.push_back(&c); return v; }
// Elements whose content is text are not parents of other elements.
static const vector<const Class*>& parents() { static vector<const Class*> v; if (v.empty()) for (auto c : classes()) if (c->cls != "Coordinates" && c->cls != "Snippet" && c->cls != "LinkSnippet" && c->cls != "SimpleData") v.push_back(c); return v; }
static bool same_set(vector<Node> a, vector<Node> b) { for (auto& x : a) { bool f = false; for (size_t i = 0; i < b.size(); ++i) if (eq_node(x, b[i])) { b.erase(b.begin() + i); f = true; break; } if (!f) return false; } return b.empty(); }
// Parse doc; it must equal m (without extras) and serialize as m with extras.
static void verify(Run& r, const M& m, const string& in, const string& tag) {
  string err, why; ElementPtr e = kmldom::Parse(in, &err); r.nontrivial(); r.step(); r.say(in);
  r.check(e.get() != NULL, "foreign:parse", err + " : " + in);
  r.check(equals(m, e, &why, true), "foreign:disturbs-" + tag, why + " from " + mc::esc(in));
  for (int pretty = 0; pretty < 2; ++pretty) {
    string o = pretty ? kmldom::SerializePretty(e) : kmldom::SerializeRaw(e); Node n; r.step(); ws_in_empty() = false;
    r.check(xn::read(o, &n, &err), "foreign:not-well-formed", err + " in " + mc::esc(o) + " from " + mc::esc(in));
    r.check(match(m, n, &why), "foreign:lost-" + tag, why + " in " + mc::esc(o) + " from " + mc::esc(in));
    ElementPtr e2 = kmldom::Parse(o, &err); r.check(e2.get() && equals(m, e2, &why, true), "foreign:second-pass", why + err);
    Node n2; string o2 = pretty ? kmldom::SerializePretty(e2) : kmldom::SerializeRaw(e2);
    r.check(xn::read(o2, &n2, &err) && match(m, n2, &why), "foreign:second-" + tag, why + " in " + mc::esc(o2));
  }
}
static Node insert(const Node& base, const vector<std::pair<int, Node>>& ins) {  // positions within the original children
  Node n = base; n.kid.clear();
  for (size_t i = 0; i <= base.kid.size(); ++i) { for (auto& p : ins) if (p.first == (int)i) n.kid.push_back(p.second); if (i < base.kid.size()) n.kid.push_back(base.kid[i]); }
  return n;
}
// One unknown element of every shape at every position in every class, the
// class holding each one of its fields (or a pair of them).
static void unknown1(Run& r) {
  const Class& c = *r.of(parents()); int f = r.pick(c.f.size() + 1); M m(c); if (f < (int)c.f.size()) put(m, f, "v"); 
  const Node& u = r.of(shapes()); Node b = to_xml(m); int pos = r.pick(b.kid.size() + 1); m.extra.push_back(u); Node nn = b; 
  verify(r, m, xn::write(insert([&] { Node x = to_xml([&] { M k = m; k.extra.clear(); return k; }()); return x; }(), {{pos, u}})), "unknown");
}
static void unknown2(Run& r) {
  static const vector<string> K = {"Placemark", "Document", "Folder", "kml", "Style", "Point", "NetworkLink", "ExtendedData", "Schema", "Update", "GroundOverlay", "gx:Tour", "StyleMap", "Data"};
  M m(r.of(K)); const Class& c = *m.c; int n = 0; for (size_t i = 0; i < c.f.size() && n < 3; ++i) if (!c.f[i].attr() && (n == 0 || c.f[i].complex() || c.f[i].xml == "description")) { put(m, i, "v"); ++n; }
  Node b = to_xml(m); int a = r.pick(b.kid.size() + 1), z = r.pick(b.kid.size() + 1); if (z < a) r.prune();
  const Node &u = shapes()[r.pick(thorough ? shapes().size() : 10)], &w = shapes()[r.pick(thorough ? shapes().size() : 10)];
  m.extra = {u, w}; verify(r, m, xn::write(insert(b, {{a, u}, {z, w}})), "unknown");
}
// Unknown content at every level of a nested document with descriptions.
static void nested(Run& r) {
  M p("Placemark"); p.set("name", "pn").set("description", "pd <i>x</i>").add("geometry", M("Point").add("coordinates", M("coordinates").app("coordinates", "1 2 3")));
  M q("Placemark"); q.set("description", "qd"); M d("Document"); d.set("description", "dd"); M k("kml");
  int where = r.pick(4), pos = r.pick(5); const Node& u = r.of(shapes()); int where2 = r.pick(5); const Node& w = shapes()[r.pick(thorough ? shapes().size() : 2) * 7 % shapes().size()];
  auto build = [&](bool foreign) { 
    Node P = to_xml(p), Q = to_xml(q), D = to_xml(d), K = to_xml(k); 
    vector<std::pair<int, Node>> none; auto ins = [&](Node b, int lvl) { if (!foreign) return b; vector<std::pair<int, Node>> v; if (where == lvl) v.push_back({std::min<int>(pos, b.kid.size()), u}); if (where2 == lvl) v.push_back({(int)b.kid.size(), w}); return insert(b, v); };
    P = ins(P, 0); Q = ins(Q, 1); D.kid.push_back(P); D.kid.push_back(Q); D = ins(D, 2); K.kid.push_back(D); return ins(K, 3); };
  if (pos > (where == 0 ? 3 : where == 1 ? 1 : where == 2 ? 3 : 1)) r.prune();
  auto ext = [&](M& m, int lvl) { if (where == lvl) m.extra.push_back(u); if (where2 == lvl) m.extra.push_back(w); };
  M p2 = p, q2 = q, d2 = d, k2 = k; ext(p2, 0); ext(q2, 1); ext(d2, 2); ext(k2, 3); d2.add("feature", p2); d2.add("feature", q2); k2.add("feature", d2);
  verify(r, k2, xn::write(build(true)), "unknown");
}
// Known complex elements where they are not allowed.
static bool accepts(const Class& p, const Class& k) { for (auto& f : p.f) if (f.complex()) for (auto& a : f.accept) if (key(a).tag == k.tag) return true; return false; }
static void misplaced(Run& r) {
  const Class& p = *r.of(parents()); const Class& k = *r.of(classes()); if (accepts(p, k)) r.prune();
  for (auto& a : k.isa) if (a == "TimePrimitive" && (accepts(p, key("TimeSpan")) || accepts(p, key("gx:TimeSpan")))) r.prune();  // any time primitive is accepted
  if (p.cls == "Change") for (auto& a : k.isa) if (a == "Object") r.prune();  // any object may be changed
  bool old = p.cls == "IconStyle" && k.tag == "Icon"; if (old) r.prune();
  M m(p); int f = r.pick(2); if (f) { if (p.f.empty()) r.prune(); for (size_t i = 0; i < p.f.size(); ++i) if (!p.f[i].attr()) { put(m, i, "w"); break; } }
  M kid = leaf(keyof(k), "mm"); Node b = to_xml(m), u = to_xml(kid); m.extra.push_back(u); int pos = r.pick(b.kid.size() + 1);
  string err, why; string in = xn::write(insert(b, {{pos, u}})); r.nontrivial(); r.step(); r.say(in);
  ElementPtr e = kmldom::Parse(in, &err); r.check(e.get() != NULL, "foreign:parse", err + in);
  r.check(equals(m, e, &why, true), "foreign:misplaced-disturbs", why + " from " + in);
  string o = kmldom::SerializeRaw(e); Node n; r.check(xn::read(o, &n, &err), "foreign:not-well-formed", o);
  vector<Node> unk; M base = m; base.extra.clear(); Node stripped = n; stripped.kid.clear();
  bool found = false; for (auto& c : n.kid) { if (!found && c.name == u.name && match(kid, c, &why)) { found = true; continue; } stripped.kid.push_back(c); }
  r.check(found, "foreign:misplaced-lost", "<" + u.name + "> in <" + p.tag + "> : " + o + " from " + in);
  r.check(match(base, stripped, &why), "foreign:misplaced-changes", why + " in " + o);
}
// Known simple elements where they are not allowed.
static void misplaced_simple(Run& r) {
  static vector<std::pair<string, string>> S; if (S.empty()) { std::set<string> seen; for (auto& c : all()) for (auto& f : c.f) if (!f.attr() && !f.complex() && !f.xml.empty() && f.kind != VLIST && seen.insert(f.xml).second) S.push_back({f.xml, f.kind == STR ? "a & b" : text_of(f, values(f, false)[0])}); }
  const Class& p = *r.of(parents()); auto& s = r.of(S); for (auto& f : p.f) if (f.xml == s.first && !f.attr()) r.prune();
  M m(p); Node u(s.first, s.second); Node b = to_xml(m); m.extra.push_back(u); verify(r, m, xn::write(insert(b, {{0, u}})), "simple");
}
// Unknown attributes.
static void attrs(Run& r) {
  const Class& c = *r.of(classes()); M m(c); int f = r.pick(c.f.size() + 1); if (f < (int)c.f.size()) put(m, f, "v");
  static const vector<std::pair<string, string>> A = {{"foo", "bar"}, {"x:y", "a&b<\"c\">'"}, {"xml:lang", "en"}, {"idx", ""}, {"ID", "up"}}; auto& a = r.of(A); m.xattr[a.first] = a.second;
  if (r.flip()) m.xattr["zz"] = " two  spaces ";
  verify(r, m, xn::write(to_xml(m)), "attribute");
}
// Unknown elements inside text: the text is read as if they were absent.
static void intext(Run& r) {
  const Class& c = *r.of(classes()); int k = r.pick(c.f.size() + 1); if (k == (int)c.f.size()) r.prune(); const Field& f = c.f[k]; if (f.attr() || f.complex() || !f.scalar() || f.xml == "description") r.prune(); if (f.kind != TEXT && f.xml.empty()) r.prune(); if (c.cls == "AtomContent" || c.cls == "AtomSummary") r.prune();
  M m(c); V v = values(f); m.sc[k] = f.kind == STR || f.kind == TEXT ? string("ab c") : v[r.pick(v.size())]; Node n = to_xml(m); string t = f.kind == TEXT ? n.text : n.kid.back().text; if (t.empty()) r.prune(); size_t at = r.pick(std::min<size_t>(t.size(), 3) + 1); const Node& u = shapes()[r.pick(4)]; string open = "<" + (f.kind == TEXT ? n.name : n.kid.back().name), whole = xn::write(n); size_t p = whole.rfind(open), q = whole.find('>', p) + 1; string in = whole.substr(0, q) + xn::esc(t.substr(0, at)) + xn::write(u) + xn::esc(t.substr(at)) + whole.substr(whole.find('<', q)); string err, why; r.nontrivial(); r.step(); r.say(in);
  ElementPtr e = kmldom::Parse(in, &err); r.check(e.get() != NULL, "foreign:parse", err + in); r.check(equals(m, e, &why, true), "foreign:in-text", why + " from " + in);
}
static void intuples(Run& r) {
  static const vector<string> U = {"<foo/>", "<foo>9,9</foo>", "<foo a=\"1\"><bar>7</bar></foo>", "<x:y>8,8,8</x:y>"}; int at = r.pick(5); const string& u = r.of(U); string t[] = {"", "1,2,3 ", "4,5,6", " 7,8,9 "}; string c; for (int i = 0; i < 4; ++i) { if (at == i) c += u; c += t[i]; } if (at == 4) c += u; bool two = r.flip(); if (two) c += U[1]; string in = "<Placemark><LineString><coordinates>" + c + "</coordinates></LineString></Placemark>", err; ElementPtr e = kmldom::Parse(in, &err); r.nontrivial(); r.step(); r.say(in); r.check(e.get() != NULL, "foreign:parse", err + in); kmldom::CoordinatesPtr k = kmldom::AsLineString(kmldom::AsPlacemark(e)->get_geometry())->get_coordinates(); r.check(k && k->get_coordinates_array_size() == 3, "foreign:in-coordinates", in); for (int i = 0; i < 3; ++i) r.check(k->get_coordinates_array_at(i).get_longitude() == 1 + 3 * i && k->get_coordinates_array_at(i).get_altitude() == 3 + 3 * i, "foreign:in-coordinates-value", in);
}
// Markup written inside a description is the description's text; whatever
// follows it is parsed as if the markup were plain text.
static void markup_seq(Run& r, int depth, int width, string* in, string* want) {
  static const vector<string> TAG = {"description", "b", "Placemark", "name", "coordinates", "Schema"};
  int n = r.pick(width + 1);
  for (int i = 0; i < n; ++i) {
    int k = r.pick(depth > 0 ? 4 + TAG.size() : 4);
    if (k == 0) { *in += "t"; *want += "t"; } else if (k == 1) { *in += "&lt;u&amp;"; *want += "<u&"; } else if (k == 2) { *in += "<![CDATA[<i>]]>"; *want += "<i>"; }
    else if (k == 3) { *in += "<br k=\"v w\"/>"; *want += "<br k=\"v w\"></br>"; }
    else { const string& t = TAG[k - 4]; *in += "<" + t + ">"; *want += "<" + t + ">"; markup_seq(r, depth - 1, 1, in, want); *in += "</" + t + ">"; *want += "</" + t + ">"; }
  }
}
static void markup(Run& r) {
  static const vector<string> K = {"Placemark", "Folder", "ScreenOverlay"}; int ctx = r.pick(4); const string& k = K[ctx % 3]; string body, want; markup_seq(r, thorough ? 3 : 2, 2, &body, &want);
  static const char* PRE[] = {"", "<foo><description>z</description></foo>", "<name>n</name>", "<description>first<b/></description>"};
  string in = "<Document><" + k + ">" + PRE[ctx] + "<description>" + body + "</description><name>n</name><foo>u</foo><snippet>s</snippet></" + k + "><Placemark><description>second</description><Point><coordinates>1,2,3</coordinates></Point></Placemark></Document>", err;
  ElementPtr e = kmldom::Parse(in, &err); r.nontrivial(); r.step(); r.say(in); r.check(e.get() != NULL, "foreign:markup-parse", err + " : " + in);
  kmldom::DocumentPtr d = kmldom::AsDocument(e); r.check(d && d->get_feature_array_size() == 2, "foreign:markup-siblings", in); kmldom::FeaturePtr f = d->get_feature_array_at(0), g = d->get_feature_array_at(1);
  r.eq(f->get_description(), want, "foreign:markup-text", in); r.check(f->has_description() && f->get_name() == "n", "foreign:markup-name", in);
  r.check(g->get_description() == "second" && kmldom::AsPlacemark(g) && kmldom::AsPoint(kmldom::AsPlacemark(g)->get_geometry()) && kmldom::AsPoint(kmldom::AsPlacemark(g)->get_geometry())->get_coordinates()->get_coordinates_array_at(0).get_latitude() == 2, "foreign:markup-next", in);
  string o = kmldom::SerializeRaw(e), i2; ElementPtr e2 = kmldom::Parse(o, &err); r.step(2); r.check(e2.get() != NULL, "foreign:markup-reparse", err + o); r.eq(kmldom::AsDocument(e2)->get_feature_array_at(0)->get_description(), want, "foreign:markup-second", o);
  size_t uf = o.find("<foo>u</foo>"); r.check(uf != string::npos && uf < o.rfind("</" + k + ">"), "foreign:markup-unknown", o);
}
// Unknown trees of every form, with text and attributes that need escaping at every depth.
static Node utree(Run& r, int* left, int depth) {
  static const vector<string> L = {"foo", "x:b", "name", "description"}; --*left; Node n(depth == 0 ? string("foo") : r.of(L)); switch (r.pick(4)) { case 1: n.text = "a & b < c > \"d\" ]]> e"; break; case 2: n.attr["k"] = "a&b<c>\"d\"'e'"; break; case 3: n.text = "&amp; &#38; <![CDATA[x"; break; }
  while (*left > 0 && depth < 3 && r.flip()) n.kid.push_back(utree(r, left, depth + 1)); return n;
}
static M host() { M p("Placemark"); p.set("name", "pn").add("geometry", M("Point").add("coordinates", M("coordinates").app("coordinates", "1 2 3"))); return p; }
static void trees(Run& r) { int left = thorough ? 4 : 3; Node u = utree(r, &left, 0); M m = host(); Node b = to_xml(m); int pos = r.pick(b.kid.size() + 1); m.extra.push_back(u); verify(r, m, xn::write(insert(b, {{pos, u}})), "tree"); }
// Long and deep unknown content.
static void scale(Run& r) {
  static const int S[] = {9, 17, 33, 65, 129, 257, 1025}; int n = S[r.pick(7)], how = r.pick(5), pos = r.pick(3); M m = host(); Node b = to_xml(m); vector<std::pair<int, Node>> ins; auto put1 = [&](const Node& u) { m.extra.push_back(u); ins.push_back({pos, u}); };
  if (how == 0) { Node u("foo"); for (int i = 0; i < n; ++i) u.attr["a" + str(i)] = "v&" + str(i); put1(u); } else if (how == 1) { Node u("foo"); for (int i = 0; i < n; ++i) u.kid.push_back(at(N(i % 3 ? "bar" : "name", "t<" + str(i)), "k", "\"" + str(i))); put1(u); }
  else if (how == 2) { if (n > 65) r.prune(); Node u("foo", "deepest & end"); for (int i = 0; i < n; ++i) { Node w(i % 4 == 3 ? "Placemark" : "foo", i % 2 ? "" : "t&"); w.kid.push_back(u); u = w; } u = with(N("foo"), {u}); put1(u); } else if (how == 3) { string t; for (int i = 0; i < n; ++i) t += i % 7 ? "xyz" : "a&b<"; Node u("foo", t); u.attr["k"] = t; put1(u); }
  else { if (n > 257) r.prune(); for (int i = 0; i < n; ++i) put1(N("u" + str(i), "t&" + str(i))); }
  verify(r, m, xn::write(insert(b, ins)), "scale");
}
void mc_setup() {
  rule("every class holding each one of its fields with an unknown element of each of 16 shapes (attributes, escapes, nested known and unknown markup, descriptions) at each position; two unknown elements in each pair of positions; unknown content on two levels of a nested document; the full matrix of misplaced complex and simple elements; unknown attributes on every class; unknown elements at each position inside the text of every text-bearing element; every tree of markup up to depth 2 (3) inside a description (one child below the top), with and without preceding content; unknown trees of up to 3 elements (4 thorough) with text and attributes to escape at every depth, and of 9 to 1025 attributes, children and siblings");
  assume("character data interleaving inside unknown elements is compared as one text");
  add("unknown1", unknown1, BOTH, 2); add("unknown2", unknown2, BOTH, 3); add("nested", nested, BOTH, 2); add("misplaced", misplaced); add("misplaced_simple", misplaced_simple); add("attrs", attrs); add("markup", markup, BOTH, 3); add("intext", intext, BOTH, 2); add("intuples", intuples);
  add("trees", trees); add("scale", scale, BOTH, 1);
}
