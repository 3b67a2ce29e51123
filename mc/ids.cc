// P13: lookup by id, by type, id clearing and remapping.
#include "domgen.h"
#include "kml/dom/parser.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/find.h"
#include "kml/engine/id_mapper.h"
#include "kml/engine/object_id_parser_observer.h"
#include "kml/engine/shared_style_parser_observer.h"
using namespace mc; using namespace dg; using kmlengine::ElementVector;

// A tree of elements in schema order with ids.
struct T { string tag, id; bool has; vector<T> kid; int parent_doc; };
static const vector<string>& ID() { static vector<string> v = {"", "a", "b"}; return v; }
struct Flat { string tag, id; bool has; string parent; int depth; };
static void flat(const T& t, const string& parent, int depth, vector<Flat>* o) { o->push_back({t.tag, t.id, t.has, parent, depth}); for (auto& k : t.kid) flat(k, t.tag, depth + 1, o); }
static string xml(const T& t) { string o = "<" + t.tag + (t.has ? " id=\"" + t.id + "\"" : "") + ">"; for (auto& k : t.kid) o += xml(k); return o + "</" + t.tag + ">"; }
static T node(Run& r, const string& tag, int nid) { T t; t.tag = tag; int k = r.pick(nid + 1); t.has = k > 0; if (t.has) t.id = ID()[k]; return t; }
static T one(const string& tag, const string& id = "") { T t; t.tag = tag; t.id = id; t.has = !id.empty(); return t; }
// The skeletons; every listed element is given every id.
static T skeleton(Run& r, int s, int nid) {
  T k = one("kml"); auto N = [&](const char* t) { return node(r, t, nid); };
  switch (s) {
    case 0: { T d = N("Document"); d.kid.push_back(N("Style")); d.kid.push_back(N("StyleMap")); T p = N("Placemark"); p.kid.push_back(N("Style")); d.kid.push_back(p); k.kid.push_back(d); break; }
    case 1: { T d = N("Document"); d.kid.push_back(N("Style")); d.kid.push_back(N("Style")); T e = N("Document"); e.kid.push_back(N("Style")); d.kid.push_back(e); k.kid.push_back(d); break; }
    case 2: { T f = N("Folder"); f.kid.push_back(N("Style")); T p = N("Placemark"); T g = N("MultiGeometry"); g.kid.push_back(N("Point")); g.kid.push_back(N("LineString")); p.kid.push_back(g); f.kid.push_back(p); k.kid.push_back(f); break; }
    case 3: { T d = N("Document"); T st = N("Style"); T is = N("IconStyle"); st.kid.push_back(is); st.kid.push_back(N("LineStyle")); d.kid.push_back(st); T sm = one("StyleMap"); T p = N("Pair"); p.kid.push_back(N("Style")); sm.kid.push_back(p); d.kid.push_back(sm); k.kid.push_back(d); break; }
    case 4: { T d = N("Document"); T o = N("NetworkLink"); o.kid.push_back(N("LookAt")); T rg = N("Region"); rg.kid.push_back(N("LatLonAltBox")); o.kid.push_back(rg); o.kid.push_back(N("Link")); d.kid.push_back(o); k.kid.push_back(d); break; }
    default: { T d = N("Document"); d.kid.push_back(N("Schema")); T p = N("Placemark"); T ed = one("ExtendedData"); ed.kid.push_back(N("Data")); ed.kid.push_back(N("SchemaData")); p.kid.push_back(ed); p.kid.push_back(N("Point")); d.kid.push_back(p); k.kid.push_back(d); break; }
  }
  return k;
}
static vector<ElementPtr> walk(const ElementPtr& root, size_t n, Run& r) { ElementVector v; kmlengine::GetChildElements(root, true, &v); v.insert(v.begin(), root); r.eq(n, v.size(), "ids:element-count", kmldom::SerializeRaw(root)); return v; }
static string tag_of(const ElementPtr& e) { Node n; xn::read(kmldom::SerializeRaw(e), &n); return n.name; }
static void lookup(Run& r) {
  int s = r.pick(6), nid = 2, from = r.pick(4); T t = skeleton(r, s, nid); string x = xml(t); vector<Flat> fl; flat(t, "", 0, &fl); r.nontrivial(); r.say(x); string err; kmlengine::KmlFilePtr f; bool dup = false; { std::set<string> seen; for (auto& e : fl) if (e.has && !seen.insert(e.id).second) dup = true; }
  r.step(); if (from == 0) f = kmlengine::KmlFile::CreateFromParse(x, &err); else if (from == 1) { f = kmlengine::KmlFile::CreateFromImport(kmldom::Parse(x, NULL)); r.check((f.get() == NULL) == dup, "ids:strict-import", x); if (!f) return; } else if (from == 2) f = kmlengine::KmlFile::CreateFromImportLax(kmldom::Parse(x, NULL)); else f = kmlengine::KmlFile::CreateFromString(x);
  r.check(f.get() != NULL, "ids:file", x); vector<ElementPtr> v = walk(f->get_root(), fl.size(), r); for (size_t i = 0; i < fl.size(); ++i) r.eq(fl[i].tag, tag_of(v[i]), "ids:document-order", x);
  std::map<string, int> last, style; for (size_t i = 0; i < fl.size(); ++i) { if (fl[i].has) last[fl[i].id] = i; if (fl[i].has && fl[i].parent == "Document" && (fl[i].tag == "Style" || fl[i].tag == "StyleMap")) style[fl[i].id] = i; }
  for (string id : {"a", "b", "zz", "", "A"}) { kmldom::ObjectPtr o = f->GetObjectById(id); r.step(); if (last.count(id)) r.check(o.get() == v[last[id]].get(), "ids:object", "id " + id + " in " + x + (o ? " gives " + kmldom::SerializeRaw(o) : " gives nothing")); else r.check(!o, "ids:object-extra", id + " in " + x);
    kmldom::StyleSelectorPtr ss = f->GetSharedStyleById(id); if (style.count(id)) r.check(ss.get() == v[style[id]].get(), "ids:shared-style", "id " + id + " in " + x); else r.check(!ss, "ids:shared-style-extra", "id \"" + id + "\" in " + x); }
  r.eq(style.size(), f->get_shared_style_map().size(), "ids:shared-style-count", x);
}
static void strict(Run& r) {  // parser observers used directly
  T t = skeleton(r, r.pick(6), 2); string x = xml(t); vector<Flat> fl; flat(t, "", 0, &fl); bool st = r.flip(), which = r.flip(); std::set<string> seen; bool dup = false, sdup = false; std::set<string> ss; for (auto& e : fl) { if (e.has && !seen.insert(e.id).second) dup = true; if (e.has && e.parent == "Document" && e.tag.substr(0, 5) == "Style" && e.tag.size() != 9 + 3 && (e.tag == "Style" || e.tag == "StyleMap") && !ss.insert(e.id).second) sdup = true; }
  r.nontrivial(); r.step(); kmldom::Parser p; kmlengine::ObjectIdMap om; kmlengine::SharedStyleMap sm; kmlengine::ObjectIdParserObserver oo(&om, st); kmlengine::SharedStyleParserObserver so(&sm, st); if (which) p.AddObserver(&oo); else p.AddObserver(&so); string err; ElementPtr e = p.Parse(x, &err); bool want = !(st && (which ? dup : sdup)); r.check((e.get() != NULL) == want, which ? "ids:strict-parse" : "ids:strict-shared", x); if (e && which) r.eq(seen.size(), om.size(), "ids:map-size", x); if (e && !which) r.eq(ss.size(), sm.size(), "ids:shared-map-size", x);
}
// MapIds, ClearIds, RemapIds.
static void remap(Run& r) {
  T t = skeleton(r, r.pick(6), 2); string x = xml(t); vector<Flat> fl; flat(t, "", 0, &fl); ElementPtr root = kmldom::Parse(x, NULL); vector<ElementPtr> v = walk(root, fl.size(), r); int what = r.pick(6); r.nontrivial(); r.step(); r.say(x); std::map<string, int> last; bool dup = false; for (size_t i = 0; i < fl.size(); ++i) if (fl[i].has) { dup |= last.count(fl[i].id) != 0; last[fl[i].id] = i; }
  kmlengine::ObjectIdMap om; ElementVector dv; kmlengine::MapIds(root, &om, what % 2 ? &dv : NULL); r.eq(last.size(), om.size(), "ids:map", x); for (auto& l : last) r.check(om.count(l.first) && om[l.first].get() == v[l.second].get(), "ids:map-object", l.first + " in " + x); if (what % 2) r.check(dv.empty() != dup, "ids:duplicates", x); r.eq(x.size() >= 0, true, "", "");
  auto state = [&] { string s; for (auto& e : v) { kmldom::ObjectPtr o = kmldom::AsObject(e); s += o && o->has_id() ? o->get_id() + "," : ","; } return s; };
  if (what == 0) { kmlengine::ClearIds(root); string w; for (size_t i = 0; i < v.size(); ++i) w += ","; r.eq(w, state(), "ids:clear", x); Node n, m; xn::read(kmldom::SerializeRaw(root), &n); string y = x; for (const char* a : {" id=\"a\"", " id=\"b\""}) for (size_t p; (p = y.find(a)) != string::npos;) y.erase(p, 7); xn::read(y, &m); r.check(eq_node(m, n), "ids:clear-other", x); return; }
  kmlbase::StringMap mp; if (what == 1 || what == 2) mp["a"] = "new"; if (what == 2) mp["b"] = "a"; if (what == 3) { mp["a"] = "b"; mp["b"] = "a"; } if (what == 4) mp["b"] = "b"; kmlengine::ObjectIdMap out; int cleared = kmlengine::RemapIds(om, mp, what == 5 ? NULL : &out); int wc = 0; string w; std::map<string, int> wo; for (size_t i = 0; i < fl.size(); ++i) { string id = fl[i].has ? fl[i].id : ""; if (fl[i].has && last[id] == (int)i) { if (mp.count(id)) { wo[mp[id]] = i; id = mp[id]; } else { ++wc; id = ""; } } w += id + ","; }
  r.eq(w, state(), "ids:remap", x); r.eq(wc, cleared, "ids:remap-count", x); if (what != 5) { r.eq(wo.size(), out.size(), "ids:remap-out", x); for (auto& l : wo) r.check(out.count(l.first) && out[l.first].get() == v[l.second].get(), "ids:remap-out-object", x); }
}
// Search by type over every class with every complex slot filled.
static void reftree(const M& m, vector<const M*>* o) { o->push_back(&m); }
static void search(Run& r) {
  const Class& c = all()[r.pick(all().size())]; M m(c); int only = r.pick(c.f.size() + 1); for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex() && (only == (int)i || only == (int)c.f.size())) { put(m, i, "f"); if (c.f[i].list()) put(m, i, "g", 1); } if (only < (int)c.f.size() && !c.f[only].complex()) r.prune(); ElementPtr root = to_dom(m); r.nontrivial(); r.step();
  // Independent traversal through the accessors.
  std::function<void(const Class&, const ElementPtr&, vector<std::pair<const Class*, kmldom::Element*>>*, bool)> go = [&](const Class& k, const ElementPtr& e, vector<std::pair<const Class*, kmldom::Element*>>* o, bool deep) { for (auto& f : k.f) if (f.complex()) { vector<ElementPtr> ch; if (f.list()) for (size_t i = 0; i < f.size(e.get()); ++i) ch.push_back(f.at(e.get(), i)); else if (f.has(e.get())) ch.push_back(f.getc(e.get())); for (auto& x : ch) { const Class* kk = NULL; for (auto& z : all()) if (z.type == (int)x->Type()) kk = &z; o->push_back({kk, x.get()}); if (deep && kk) go(*kk, x, o, true); } } };
  vector<std::pair<const Class*, kmldom::Element*>> want, kids; go(c, root, &want, true); go(c, root, &kids, false); ElementVector v, k; r.eq((int)want.size(), kmlengine::GetChildElements(root, true, &v), "ids:count-all", c.cls); r.eq((int)want.size(), kmlengine::GetChildElements(root, true, NULL), "ids:count-null", c.cls); r.eq((int)kids.size(), kmlengine::GetChildElements(root, false, &k), "ids:count-children", c.cls); std::multiset<kmldom::Element*> a, b; for (auto& x : want) a.insert(x.second); for (auto& x : v) b.insert(x.get()); r.check(a == b, "ids:all-elements", c.cls); a.clear(); b.clear(); for (auto& x : kids) a.insert(x.second); for (auto& x : k) b.insert(x.get()); r.check(a == b, "ids:children", c.cls);
  // Document order is the order of the serialization.
  vector<string> order; std::function<void(const Node&)> tags = [&](const Node& n) { for (auto& q : n.kid) { bool cx = false; for (auto& z : all()) cx |= z.tag == q.name; if (cx) order.push_back(q.name); tags(q); } }; Node n; string why; xn::read(kmldom::SerializeRaw(root), &n, &why); tags(n); vector<string> got; for (auto& x : v) got.push_back(tag_of(x)); string so, sg; for (auto& q : order) so += q + " "; for (auto& q : got) sg += q + " "; r.eq(so, sg, "ids:order", c.cls);
  for (auto& z : all()) { ElementVector w; kmlengine::GetElementsById(root, (kmldom::KmlDomType)z.type, &w); vector<kmldom::Element*> g; for (auto& x : v) { for (auto& p : want) if (p.second == x.get()) { bool is = p.first->cls == z.cls || (int)x->Type() == z.type; for (auto& i : p.first->isa) is |= i == z.cls; if (is) g.push_back(x.get()); break; } } r.step(); bool same = g.size() == w.size(); for (size_t i = 0; same && i < g.size(); ++i) same = g[i] == w[i].get(); r.check(same, "ids:by-type", c.cls + " searched for " + z.cls + " found " + str(w.size()) + " want " + str(g.size())); }
  static const std::pair<const char*, kmldom::KmlDomType> AB[] = {{"Feature", kmldom::Type_Feature}, {"Object", kmldom::Type_Object}, {"Geometry", kmldom::Type_Geometry}, {"Container", kmldom::Type_Container}, {"StyleSelector", kmldom::Type_StyleSelector}, {"SubStyle", kmldom::Type_SubStyle}, {"ColorStyle", kmldom::Type_ColorStyle}, {"AbstractView", kmldom::Type_AbstractView}, {"TimePrimitive", kmldom::Type_TimePrimitive}, {"Overlay", kmldom::Type_Overlay}};
  { ElementVector nw; kmlengine::GetElementsById(NULL, kmldom::Type_Placemark, &nw); kmlengine::GetElementsById(root, kmldom::Type_Placemark, NULL); kmlengine::GetElementsById(NULL, kmldom::Type_Placemark, NULL); r.check(nw.empty(), "find:null", ""); } for (auto& z : AB) { ElementVector w; kmlengine::GetElementsById(root, z.second, &w); vector<kmldom::Element*> g; for (auto& x : v) for (auto& p : want) if (p.second == x.get()) { bool is = false; for (auto& i : p.first->isa) is |= i == z.first; if (is) g.push_back(x.get()); break; } bool same = g.size() == w.size(); for (size_t i = 0; same && i < g.size(); ++i) same = g[i] == w[i].get(); r.check(same, "ids:by-abstract-type", c.cls + " searched for " + z.first + " found " + str(w.size()) + " want " + str(g.size())); }
}
// An id on any kind of object in any place, of any spelling, is found.
static void kinds(Run& r) {
  const Class& c = all()[r.pick(all().size())]; vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex()) cx.push_back(i); if (cx.empty()) r.prune(); int k = r.of(cx); const string& ak = r.of(c.f[k].accept); M kid(ak); bool has = false; for (auto& f : kid.c->f) has |= f.api == "targetid"; if (!has) r.prune();
  static const vector<string> S = {"t", "T t", "#t", "\xc3\xa9", "1", "a&<\"b", string(300, 'i'), "t:u/v.w-x_y", "\\"}; int sp = r.pick(S.size()); const string& id = S[sp]; int from = r.pick(3), tid = r.pick(2); kid.set("id", id); if (tid) kid.set("targetid", "other"); M m(c); m.ch[k].push_back(kid); ElementPtr root; string in = xn::write(to_xml(m)), err; r.nontrivial(); r.step(); r.say(in);
  kmlengine::KmlFilePtr f; if (from == 0) { if (kid.c->cls == "IconStyleIcon" || c.cls == "IconStyleIcon") r.prune(); f = kmlengine::KmlFile::CreateFromParse(in, &err); } else f = from == 1 ? kmlengine::KmlFile::CreateFromImport(to_dom(m)) : kmlengine::KmlFile::CreateFromImportLax(to_dom(m)); r.check(f.get() != NULL, "ids:kind-file", err + in);
  ElementPtr e = c.f[k].list() ? c.f[k].at(f->get_root().get(), 0) : c.f[k].getc(f->get_root().get()); r.check(e.get() && f->GetObjectById(id).get() == e.get(), "ids:kind-object", in); r.check(!f->GetObjectById("other") && !f->GetObjectById(id + "x") && !f->GetObjectById(id.substr(1)), "ids:kind-other", in);
  bool shared = c.cls == "Document" && (kid.c->cls == "Style" || kid.c->cls == "StyleMap") ; r.check((f->GetSharedStyleById(id).get() == e.get()) == shared, "ids:kind-shared", in);
  kmlengine::ClearIds(f->get_root()); M w = m; w.ch[k][0] = M(ak); if (tid) w.ch[k][0].set("targetid", "other"); string why; r.check(equals(w, f->get_root(), &why, true), "ids:kind-clear", why + in);
}
static void scale(Run& r) {
  int n = r.of({5, 9, 17, 33, 64, 65, 129, 257, 600}), d = r.pick(5), from = r.pick(3); int a = d == 0 ? -1 : d == 1 ? 0 : d == 2 ? n / 2 : n - 2, b = d == 4 ? 0 : n - 1; string x = "<kml><Document>"; std::map<string, int> last; for (int i = 0; i < n; ++i) x += "<Style id=\"s" + str(i) + "\"/>"; for (int i = 0; i < n; ++i) { string id = "p" + str(a >= 0 && i == b ? a : i); x += "<Placemark id=\"" + id + "\"><name>" + str(i) + "</name></Placemark>"; last[id] = i; } x += "</Document></kml>"; bool dup = (int)last.size() != n; string err; r.nontrivial(); r.step();
  kmlengine::KmlFilePtr f; if (from == 0) f = kmlengine::KmlFile::CreateFromParse(x, &err); else if (from == 1) { f = kmlengine::KmlFile::CreateFromImport(kmldom::Parse(x, NULL)); r.check((f.get() == NULL) == dup, "ids:scale-strict", str(n)); if (!f) return; } else f = kmlengine::KmlFile::CreateFromImportLax(kmldom::Parse(x, NULL)); r.check(f.get() != NULL, "ids:scale-file", err);
  for (auto& l : last) { kmldom::PlacemarkPtr p = kmldom::AsPlacemark(f->GetObjectById(l.first)); r.check(p && p->get_name() == str(l.second), "ids:scale-object", l.first + " of " + str(n)); } for (int i = 0; i < n; ++i) { kmldom::StyleSelectorPtr s = f->GetSharedStyleById("s" + str(i)); r.check(s && s->get_id() == "s" + str(i), "ids:scale-style", str(i)); r.check(!f->GetSharedStyleById("p" + str(i)), "ids:scale-not-style", str(i)); } r.check(f->get_shared_style_map().size() == (size_t)n, "ids:scale-styles", str(n));
  ElementVector v; kmlengine::GetElementsById(f->get_root(), kmldom::Type_Placemark, &v); r.eq(v.size(), (size_t)n, "ids:scale-search", str(n)); for (int i = 0; i < n; ++i) r.check(kmldom::AsPlacemark(v[i])->get_name() == str(i), "ids:scale-order", str(i));
}
void mc_setup() {
  rule("every object kind in every place that can hold it with ids of nine spellings, through parse and both imports; documents of up to 600 styles and placemarks with one repeated id; six document skeletons covering features, shared and inline styles, nested documents, style maps, geometry, views, regions, links, schemas and data, with every assignment of no id, id a or id b to every element; through parse, string, strict and lax import, parser observers, MapIds, ClearIds and RemapIds with six maps; type and child search over every class with each and all complex slots filled, for every concrete and abstract type");
  assume("documents are valid KML with elements in schema order");
  add("lookup", lookup); add("strict", strict); add("remap", remap); add("kinds", kinds, BOTH, 3); add("scale", scale); add("search", search, BOTH, 1);
}
