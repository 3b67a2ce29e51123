// P10: clones equal their originals and share nothing with them.
#include "domgen.h"
#include "kml/engine/clone.h"
using namespace mc; using namespace dg;

static void elements(const ElementPtr& e, std::set<const Element*>* out) {
  if (!e) return;
  out->insert(e.get()); const Class* c = of_type(e->Type()); if (!c) return;
  for (auto& f : c->f) { if (f.kind == CHILD) elements(f.getc(e.get()), out); else if (f.kind == LIST) for (size_t i = 0; i < f.size(e.get()); ++i) elements(f.at(e.get(), i), out); }
  for (size_t i = 0; i < e->get_misplaced_elements_array_size(); ++i) elements(e->get_misplaced_elements_array_at(i), out);
}
// <a></a> and <a/> are the same XML.
static string norm(string s) { const string t = "></SimpleData>"; size_t p; while ((p = s.find(t)) != string::npos && s[p - 1] != '/') s.replace(p, t.size(), "/>"); return s; }
struct Op { int f; int kind; };
static vector<Op> edits(const Class& c) { vector<Op> o; for (size_t i = 0; i < c.f.size(); ++i) { o.push_back({(int)i, 0}); if (c.f[i].clear && !c.f[i].list()) o.push_back({(int)i, 1}); if (c.f[i].complex()) o.push_back({(int)i, 2}); } return o; }
// Edit e (model m) in place: set, clear, or change inside a child.
static void edit(const ElementPtr& e, M* m, const Op& o) {
  const Field& f = m->c->f[o.f];
  if (o.kind == 1) { f.clear(e.get()); m->sc.erase(o.f); m->ch.erase(o.f); return; }
  if (o.kind == 2) {  // inside the first child
    auto it = m->ch.find(o.f); if (it == m->ch.end() || it->second.empty()) return;
    ElementPtr k = f.kind == CHILD ? f.getc(e.get()) : f.at(e.get(), 0); M& km = f.kind == CHILD ? it->second.back() : it->second[0];
    for (size_t i = 0; i < km.c->f.size(); ++i) if (km.c->f[i].scalar()) { V v = values(km.c->f[i]); string w = v[v.size() > 1 ? 1 : 0]; km.c->f[i].set(k.get(), w); km.sc[i] = w; break; }
    return;
  }
  if (f.scalar()) { V v = values(f); string w = v[v.size() > 1 ? 1 : 0]; f.set(e.get(), w); m->sc[o.f] = w; }
  else if (f.complex()) { M k = leaf(f.accept.back(), "edit"); if (f.kind == CHILD) m->ch.erase(o.f); m->ch[o.f].push_back(k); f.setc(e.get(), to_dom(k)); }
  else { string w = values(f).back(); f.set(e.get(), w); m->sl[o.f].push_back(w); }
}
static void verify(Run& r, const M& m, const ElementPtr& e, bool do_edit) {
  string before = kmldom::SerializeRaw(e), pretty = kmldom::SerializePretty(e), why; r.nontrivial(); r.say(before);
  ElementPtr c = kmlengine::Clone(e); r.step();
  r.check(c.get() != NULL && c.get() != e.get(), "clone:none", before);
  r.eq(before, kmldom::SerializeRaw(e), "clone:original-changed");
  string raw = kmldom::SerializeRaw(c); r.eq(norm(before), norm(raw), "clone:differs"); if (raw == before) r.eq(pretty, kmldom::SerializePretty(c), "clone:differs-pretty");
  M bare = m; r.check(equals(bare, c, &why, true), "clone:values", why + " of " + before);
  r.check(!c->GetParent().get(), "clone:parent", before);
  std::set<const Element*> a, b; elements(e, &a); elements(c, &b); r.eq(a.size(), b.size(), "clone:element-count", before);
  for (auto x : b) r.check(!a.count(x), "clone:shares-element", before);
  if (!do_edit) return;
  vector<Op> ops = edits(*m.c); if (ops.empty()) return; Op o = r.of(ops); bool which = r.flip(); M me = m; ElementPtr x = which ? c : e, y = which ? e : c;
  edit(x, &me, o); r.step(); r.eq(norm(before), norm(kmldom::SerializeRaw(y)), "clone:edit-leaks", m.c->f[o.f].api);
  r.check(equals(m, y, &why, true), "clone:edit-leaks-values", why);
  r.check(equals(me, x, &why, true), "clone:not-editable", why + " of " + before);
}
static const Class& any(Run& r) { return all()[r.pick(all().size())]; }
static ElementPtr make(Run& r, const M& m) {
  if (!r.flip()) return to_dom(m);
  if (m.c->cls == "IconStyleIcon") r.prune();
  ElementPtr e = kmldom::Parse(xn::write(to_xml(m)), NULL); r.check(e.get() != NULL, "clone:parse", m.c->cls); return e;
}
static void single(Run& r) {
  const Class& c = any(r); M m(c); int k = r.pick(c.f.size() + 1); 
  if (k < (int)c.f.size()) { const Field& f = c.f[k];
    if (f.scalar()) { V v = values(f); if (f.kind == STR || f.kind == TEXT || f.kind == ASTR) v.push_back("a&<b> ]]> \"c\""); m.sc[k] = r.of(v); }
    else if (f.complex()) { int n = f.list() ? 1 + r.pick(2) : 1; int a = r.pick(f.accept.size()); for (int i = 0; i < n; ++i) m.ch[k].push_back(leaf(f.accept[(a + i) % f.accept.size()], "k" + str(i))); }
    else { int n = 1 + r.pick(2); V v = values(f); for (int i = 0; i < n; ++i) m.sl[k].push_back(v[i % v.size()]); } }
  verify(r, m, make(r, m), false);
}
static void full_edit(Run& r) { const Class& c = any(r); M m(c); for (size_t i = 0; i < c.f.size(); ++i) put(m, i, "f", 0); ElementPtr e = make(r, m); verify(r, m, e, true); }
static void pair(Run& r) { const Class& c = any(r); int n = c.f.size(); if (n < 2) r.prune(); int i = r.pick(n), j = r.pick(n); if (i >= j) r.prune(); M m(c); put(m, i, "p"); put(m, j, "q"); verify(r, m, to_dom(m), false); }
static void deep(Run& r) {
  const Class& c = any(r); vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex()) cx.push_back(i); if (cx.empty()) r.prune();
  int k = r.of(cx); M kid(r.of(c.f[k].accept)); if (kid.c->f.empty()) r.prune(); for (size_t i = 0; i < kid.c->f.size(); ++i) put(kid, i, "d"); M m(c); m.ch[k].push_back(kid); if (c.f[k].list()) m.ch[k].push_back(kid);
  verify(r, m, to_dom(m), thorough);
}
// Elements with unknown and misplaced content and unknown attributes.
static void foreign(Run& r) {
  const Class& c = any(r); if (c.cls == "IconStyleIcon" || c.cls == "Coordinates" || c.cls == "Snippet" || c.cls == "LinkSnippet" || c.cls == "SimpleData") r.prune();
  M m(c); int k = r.pick(c.f.size() + 1); if (k < (int)c.f.size()) put(m, k, "v"); Node n = to_xml(m); int what = r.pick(6);
  Node u("foo", "a & b"); u.attr["k"] = "v\"w"; Node z("bar"); z.kid.push_back(u);
  Node mis("kml"), simple(c.by_api("x") || c.cls == "Orientation" ? "near" : "roll", "5"); bool takes = false; for (auto& f : c.f) takes |= f.xml == simple.name; if (takes) simple = Node("minAltitude", "5");
  takes = false; for (auto& f : c.f) takes |= f.xml == simple.name; if (takes) simple = Node("leftFov", "5");
  if (c.cls == "kml") mis = Node("IconStyle"); else { bool acc = false; for (auto& f : c.f) for (auto& a : f.accept) acc |= a == "kml"; if (acc) mis = Node("Vec2"); }
  if (what == 0 || what == 5) n.kid.push_back(u);
  if (what == 1) { n.kid.push_back(z); n.kid.push_back(u); }
  if (what == 2 || what == 5) n.kid.insert(n.kid.begin(), mis);
  if (what == 3 || what == 5) n.kid.push_back(simple);
  if (what == 4 || what == 5) n.attr["xfoo"] = "a&\"b\"";
  ElementPtr e = kmldom::Parse(xn::write(n), NULL); r.check(e.get() != NULL, "clone:parse", xn::write(n)); verify(r, m, e, false);
}
// Two placemarks below up to three containers, each with its own mixture of
// text-bearing children, unknown and misplaced content.
static void mixed(Run& r) {
  int depth = r.pick(4); vector<Node> leaf; vector<M> lm; static const int MIX = 8;
  for (int i = 0; i < 2; ++i) { M p("Placemark"); int k = r.pick(MIX); if (k & 1) p.add("snippet", M("Snippet").set("text", "s" + str(i))); M s("SchemaData"); s.add("simpledata", M("SimpleData").set("name", "n").set("text", "t" + str(i))); if (k & 2) p.add("extendeddata", M("ExtendedData").add("schemadata", s)); Node n = to_xml(p);
    if (k & 4) { Node u("foo", "u" + str(i)); n.kid.insert(r.flip() ? n.kid.begin() : n.kid.end(), u); if (r.flip()) n.kid.push_back(Node("IconStyle")); } leaf.push_back(n); lm.push_back(p); }
  if (depth == 0) { ElementPtr e = kmldom::Parse(xn::write(leaf[0]), NULL); r.check(e.get() != NULL, "clone:parse", "mixed"); verify(r, lm[0], e, false); return; }
  M m("Folder"); Node n("Folder"); for (int i = 0; i < 2; ++i) { m.add("feature", lm[i]); n.kid.push_back(leaf[i]); }
  bool below = r.flip(); if (below) n.kid.push_back(Node("bar", "b")); 
  for (int d = 1; d < depth; ++d) { M o(d == 1 ? "Document" : "Folder"); Node w(d == 1 ? "Document" : "Folder"); w.kid.push_back(n); M tail("Placemark"); tail.add("snippet", M("Snippet").set("text", "end")); o.add("feature", m); o.add("feature", tail); w.kid.push_back(to_xml(tail)); n = w; m = o; }
  ElementPtr e = kmldom::Parse(xn::write(n), NULL); r.check(e.get() != NULL, "clone:parse", "mixed"); verify(r, m, e, false);
}
void mc_setup() {
  rule("every class with each field alone over its values, each pair of fields, full with every subsequent set, clear or edit-in-child applied to either side, every child kind filled completely, and with unknown and misplaced content, also at every depth of a folder tree next to text-bearing elements; built through the API and by parsing; serializations, accessors and element identities are compared");
  add("single", single); add("pair", pair); add("full_edit", full_edit); add("deep", deep); add("foreign", foreign); add("mixed", mixed);
}
