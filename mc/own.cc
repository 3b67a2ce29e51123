// P09: ownership, parents, order and lifetimes under all edit sequences.
#include "domgen.h"
using namespace mc; using namespace dg;
using namespace kmldom;

// A pool of elements with a reference model of lists, slots and references.
struct World {
  Run& r; vector<string> kind; vector<ElementPtr> h; vector<Element*> raw; vector<int> parent;  // parent: -1 none, -2 unspecified
  vector<bool> alive, held; vector<vector<int>> feat, geoms; vector<int> geom, sel; vector<vector<int>> sels; vector<vector<int>> schemas;
  int add(const char* k) { int n = kind.size(); kind.push_back(k); h.push_back(key(k).make()); raw.push_back(h.back().get()); parent.push_back(-1); alive.push_back(true); held.push_back(true); feat.push_back({}); geoms.push_back({}); geom.push_back(-1); sel.push_back(-1); sels.push_back({}); schemas.push_back({}); return n; }
  World(Run& r) : r(r) {}
  bool is(int x, const char* k) const { return kind[x] == k; }
  bool under(int x, int y) const { for (; x >= 0; x = parent[x]) if (x == y) return true; return false; }  // x is y or below it
  int refs(int x) const { int n = held[x]; for (size_t p = 0; p < kind.size(); ++p) { if (!alive[p]) continue; for (int k : feat[p]) n += k == x; for (int k : geoms[p]) n += k == x; for (int k : sels[p]) n += k == x; for (int k : schemas[p]) n += k == x; n += geom[p] == x; n += sel[p] == x; } return n; }
  void reap() { for (bool again = true; again;) { again = false; for (size_t x = 0; x < kind.size(); ++x) if (alive[x] && refs(x) == 0) { alive[x] = false; again = true; for (size_t k = 0; k < kind.size(); ++k) if (parent[k] == (int)x) parent[k] = -2; feat[x].clear(); geoms[x].clear(); sels[x].clear(); schemas[x].clear(); geom[x] = sel[x] = -1; } } }
  bool can(int p, int k) const { return parent[k] == -1 && !under(p, k); }
  void verify() {
    for (size_t x = 0; x < kind.size(); ++x) { if (!alive[x]) continue;
      r.check(raw[x]->get_ref_count() == refs(x), "own:references", kind[x] + str(x) + " has " + str(raw[x]->get_ref_count()) + " want " + str(refs(x)));
      if (parent[x] != -2) { Element* p = raw[x]->GetParent().get(); r.check(p == (parent[x] == -1 ? NULL : raw[parent[x]]), "own:parent", kind[x] + str(x)); }
      ElementPtr e = raw[x];
      if (ContainerPtr c = AsContainer(e)) { r.eq(feat[x].size(), c->get_feature_array_size(), "own:feature-count", kind[x]); for (size_t i = 0; i < feat[x].size(); ++i) r.check(c->get_feature_array_at(i).get() == raw[feat[x][i]], "own:feature-order", kind[x]); }
      if (DocumentPtr d = AsDocument(e)) { r.eq(sels[x].size(), d->get_styleselector_array_size(), "own:style-count"); for (size_t i = 0; i < sels[x].size(); ++i) r.check(d->get_styleselector_array_at(i).get() == raw[sels[x][i]], "own:style-order", ""); r.eq(schemas[x].size(), d->get_schema_array_size(), "own:schema-count"); for (size_t i = 0; i < schemas[x].size(); ++i) r.check(d->get_schema_array_at(i).get() == raw[schemas[x][i]], "own:schema-order", ""); }
      if (MultiGeometryPtr m = AsMultiGeometry(e)) { r.eq(geoms[x].size(), m->get_geometry_array_size(), "own:geometry-count"); for (size_t i = 0; i < geoms[x].size(); ++i) r.check(m->get_geometry_array_at(i).get() == raw[geoms[x][i]], "own:geometry-order", ""); }
      if (PlacemarkPtr m = AsPlacemark(e)) { r.check(m->has_geometry() == (geom[x] >= 0) && m->get_geometry().get() == (geom[x] < 0 ? NULL : raw[geom[x]]), "own:geometry", ""); }
      if (FeaturePtr f = AsFeature(e)) r.check(f->get_styleselector().get() == (sel[x] < 0 ? NULL : raw[sel[x]]), "own:styleselector", "");
    }
  }
};
struct Op { int k, a, b; };
static void run(Run& r, const vector<const char*>& pool, int depth, bool drops) {
  size_t heap0 = 0;
  { World w(r); for (auto k : pool) w.add(k); int n = pool.size(); vector<Op> ops;
    for (int a = 0; a < n; ++a) {
      bool cont = w.is(a, "Document") || w.is(a, "Folder"), feat = cont || w.is(a, "Placemark");
      for (int b = 0; b < n; ++b) { bool bf = w.is(b, "Document") || w.is(b, "Folder") || w.is(b, "Placemark"), bg = w.is(b, "Point") || w.is(b, "LineString") || w.is(b, "MultiGeometry");
        if (a == b) continue;
        if (cont && bf && !w.is(b, "Document")) ops.push_back({0, a, b});
        if (w.is(a, "Placemark") && bg) ops.push_back({1, a, b});
        if (w.is(a, "MultiGeometry") && bg) ops.push_back({2, a, b});
        if (w.is(a, "Document") && w.is(b, "Style")) ops.push_back({3, a, b});
        if (feat && w.is(b, "Style") && !w.is(a, "Folder")) ops.push_back({4, a, b});
        if (w.is(a, "Document") && w.is(b, "Schema")) ops.push_back({10, a, b}); }
      if (cont) { ops.push_back({5, a, 0}); ops.push_back({5, a, 1}); }
      if (w.is(a, "Placemark")) ops.push_back({6, a, 0}); if (w.is(a, "Placemark")) ops.push_back({7, a, 0});
      if (w.is(a, "Document")) { ops.push_back({8, a, 0}); bool sc = false; for (auto k : pool) sc |= string(k) == "Schema"; if (sc) ops.push_back({11, a, 0}); }
      if (drops) ops.push_back({9, a, 0});
    }
    r.nontrivial(); static const char* ON[] = {"add_feature", "set_geometry", "add_geometry", "add_styleselector", "set_styleselector", "DeleteFeatureAt", "clear_geometry", "clear_styleselector", "DeleteStyleSelectorAt", "release", "add_schema", "DeleteSchemaAt"};
    for (int d = 0; d < depth; ++d) {
      Op o = r.of(ops); int a = o.a, b = o.b; r.say(string(ON[o.k]) + " " + w.kind[a] + str(a) + " " + (o.k < 5 || o.k == 10 ? w.kind[b] : "") + str(b));
      if (!w.held[a]) r.prune();
      bool two = o.k < 5 || o.k == 10;
      if (two && (!w.held[b] || w.parent[b] == -2 || w.under(a, b))) r.prune();
      ElementPtr A = w.h[a], B = two ? w.h[b] : ElementPtr(); bool ok = two && w.can(a, b); r.step();
      switch (o.k) {
        case 0: AsContainer(A)->add_feature(AsFeature(B)); if (ok) w.feat[a].push_back(b), w.parent[b] = a; break;
        case 1: { int old = w.geom[a]; AsPlacemark(A)->set_geometry(AsGeometry(B)); if (ok) { w.geom[a] = b; w.parent[b] = a; if (old >= 0) w.parent[old] = -2; } break; }
        case 2: AsMultiGeometry(A)->add_geometry(AsGeometry(B)); if (ok) w.geoms[a].push_back(b), w.parent[b] = a; break;
        case 3: AsDocument(A)->add_styleselector(AsStyleSelector(B)); if (ok) w.sels[a].push_back(b), w.parent[b] = a; break;
        case 4: { int old = w.sel[a]; AsFeature(A)->set_styleselector(AsStyleSelector(B)); if (ok) { w.sel[a] = b; w.parent[b] = a; if (old >= 0) w.parent[old] = -2; } break; }
        case 5: { FeaturePtr f = AsContainer(A)->DeleteFeatureAt(b); if (b < (int)w.feat[a].size()) { int x = w.feat[a][b]; r.check(f.get() == w.raw[x], "own:deleted", ""); w.feat[a].erase(w.feat[a].begin() + b); w.parent[x] = -2; } else r.check(!f, "own:deleted-none", ""); break; }
        case 6: { int old = w.geom[a]; AsPlacemark(A)->clear_geometry(); w.geom[a] = -1; if (old >= 0) w.parent[old] = -2; break; }
        case 7: { int old = w.sel[a]; AsFeature(A)->clear_styleselector(); w.sel[a] = -1; if (old >= 0) w.parent[old] = -2; break; }
        case 8: { StyleSelectorPtr s = AsDocument(A)->DeleteStyleSelectorAt(0); if (!w.sels[a].empty()) { r.check(s.get() == w.raw[w.sels[a][0]], "own:deleted-style", ""); w.parent[w.sels[a][0]] = -2; w.sels[a].erase(w.sels[a].begin()); } else r.check(!s, "own:deleted-none", ""); break; }
        case 9: w.held[a] = false; break;
        case 10: AsDocument(A)->add_schema(AsSchema(B)); if (ok) w.schemas[a].push_back(b), w.parent[b] = a; break;
        case 11: { SchemaPtr s = AsDocument(A)->DeleteSchemaAt(0); if (!w.schemas[a].empty()) { r.check(s.get() == w.raw[w.schemas[a][0]], "own:deleted-schema", ""); w.parent[w.schemas[a][0]] = -2; w.schemas[a].erase(w.schemas[a].begin()); } else r.check(!s, "own:deleted-none", ""); break; }
      }
      A = NULL; B = NULL; if (o.k == 9) w.h[a] = NULL;
      w.reap(); w.verify();
      string st; for (int x = 0; x < n; ++x) { st += str(w.parent[x]) + (w.alive[x] ? "a" : "d") + (w.held[x] ? "h" : "-"); for (int k : w.feat[x]) st += "," + str(k); st += "/" + str(w.geom[x]) + "/" + str(w.sel[x]) + ";"; } r.state(st);
    }
    heap0 = 0;
  }
  (void)heap0;
}
// Every class, every complex slot: a child belongs to one parent only.
static void slots(Run& r) {
  const Class& c = all()[r.pick(all().size())]; vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex()) cx.push_back(i); if (cx.empty()) r.prune();
  const sch::Field& f = c.f[r.of(cx)]; M km = leaf(r.of(f.accept), "k"); ElementPtr a = c.make(), b = c.make(), k = to_dom(km); r.nontrivial(); int seq = r.pick(5); if (seq > 2 && f.list()) r.prune();
  size_t before = heap_bytes(); (void)before;
  f.setc(a.get(), k); r.step(); r.check(k->GetParent().get() == a.get(), "own:slot-parent", c.cls + "." + f.api); r.check(k->get_ref_count() == 2, "own:slot-refs", c.cls + "." + f.api);
  string sa = SerializeRaw(a), sb = SerializeRaw(b);
  if (seq == 0) { f.setc(b.get(), k); r.step(); r.eq(sb, SerializeRaw(b), "own:second-parent", c.cls + "." + f.api); r.eq(sa, SerializeRaw(a), "own:first-parent", f.api); r.check(k->get_ref_count() == 2 && k->GetParent().get() == a.get(), "own:second-refs", c.cls + "." + f.api); }
  if (seq == 1) { f.setc(a.get(), k); r.step(); r.eq(sa, SerializeRaw(a), "own:added-twice", c.cls + "." + f.api); r.check(k->get_ref_count() == 2, "own:twice-refs", c.cls); }
  if (seq == 2) { f.setc(a.get(), ElementPtr()); r.step(); if (f.list()) r.eq(sa, SerializeRaw(a), "own:null-added", c.cls + "." + f.api); else { r.check(!f.has(a.get()) && k->get_ref_count() == 1, "own:null-clears", c.cls + "." + f.api); } }
  // Replaced by another of each accepted kind, and cleared: the old child is let go at once.
  if (seq >= 3) { ElementPtr k2 = to_dom(leaf(r.of(f.accept), "k2")); if (seq == 4) { f.clear(a.get()); r.step(); r.check(!f.has(a.get()) && k->get_ref_count() == 1, "own:clear-refs", c.cls + "." + f.api); } f.setc(a.get(), k2); r.step(); r.check(f.getc(a.get()).get() == k2.get() && k2->GetParent().get() == a.get(), "own:replace", c.cls + "." + f.api); r.check(k->get_ref_count() == 1 && k2->get_ref_count() == 2, "own:replace-refs", c.cls + "." + f.api); a = NULL; r.check(k2->get_ref_count() == 1, "own:outlives", c.cls + "." + f.api); r.check(!k->GetParent() && !k2->GetParent(), "own:parent-gone", c.cls + "." + f.api); return; }
  // Parent gone: the child stays while held; released together otherwise.
  if (seq == 1) { a = NULL; r.check(k->get_ref_count() == 1, "own:outlives", c.cls + "." + f.api); string x = SerializeRaw(k); r.check(!x.empty(), "own:usable", ""); r.check(!k->GetParent(), "own:parent-gone", c.cls + "." + f.api); f.setc(b.get(), k); r.step(); r.check(k->get_ref_count() == 2 && k->GetParent().get() == b.get(), "own:adopted", c.cls + "." + f.api); b = NULL; r.check(!k->GetParent() && k->get_ref_count() == 1, "own:parent-gone", c.cls + "." + f.api); }
}
// A whole tree is released with its root: heap returns to where it was.
static void release(Run& r) {
  const Class& c = all()[r.pick(all().size())]; M m(c); for (size_t i = 0; i < c.f.size(); ++i) { put(m, i, "f"); if (c.f[i].list()) put(m, i, "g", 1); } r.nontrivial();
  int how = r.pick(2); if (how && c.cls == "IconStyleIcon") r.prune(); string x = xn::write(to_xml(m)); auto once = [&] { ElementPtr e = how ? Parse(x, NULL) : to_dom(m); };
  once(); once(); r.step(2); size_t a = heap_bytes(); once(); once(); r.step(2); size_t b = heap_bytes(); r.eq(a, b, "own:leak", c.cls);
}
// Child arrays: fill, delete twice by position or id, append again; the others keep their order and identity.
static void arrays(Run& r) {
  int kind = r.pick(5), n = r.pick(thorough ? 6 : 5); KmlFactory* F = KmlFactory::GetFactory(); DocumentPtr d = F->CreateDocument(); FolderPtr fo = F->CreateFolder(); ContainerPtr c = kind == 1 ? ContainerPtr(fo) : ContainerPtr(d);
  vector<ElementPtr> v; vector<string> id; r.nontrivial(); int pos = 0; auto mk = [&](int w) { ObjectPtr o; if (kind <= 1) o = w == 2 ? ObjectPtr(F->CreateFolder()) : ObjectPtr(F->CreatePlacemark()); else if (kind == 2) o = F->CreateStyle(); else if (kind == 3) o = F->CreateSchema(); else o = F->CreatePlacemark();
    string i = w == 0 ? "" : w == 1 ? "a" : "b"; if (w) o->set_id(i); if (kind <= 1 || kind == 4) c->add_feature(AsFeature(o)); else if (kind == 2) d->add_styleselector(AsStyleSelector(o)); else d->add_schema(AsSchema(o)); v.push_back(o); id.push_back(i); r.step(); (void)pos; };
  auto verify = [&] { size_t m = kind <= 1 || kind == 4 ? c->get_feature_array_size() : kind == 2 ? d->get_styleselector_array_size() : d->get_schema_array_size(); r.eq(v.size(), m, "own:array-size");
    for (size_t i = 0; i < m; ++i) { ElementPtr e; if (kind <= 1 || kind == 4) e = c->get_feature_array_at(i); else if (kind == 2) e = d->get_styleselector_array_at(i); else e = d->get_schema_array_at(i); r.check(e.get() == v[i].get(), "own:array-order", "position " + str(i) + " of " + str(m) + " kind " + str(kind)); r.check(e->GetParent().get() == (kind == 1 ? (Element*)fo.get() : (Element*)d.get()), "own:array-parent", ""); e = NULL; r.check(v[i]->get_ref_count() == 2, "own:array-refs", str(i)); } };
  for (int i = 0; i < n; ++i) mk(r.pick(3)); verify();
  for (int t = 0; t < 2; ++t) { ElementPtr g; int at = -1; if (kind <= 1) { string q = r.of({string("a"), string("b"), string(""), string("zz")}); g = c->DeleteFeatureById(q); for (size_t i = 0; i < v.size() && at < 0; ++i) { ObjectPtr o = AsObject(v[i]); if (o->has_id() && id[i] == q) at = i; } r.say("by id " + q); }
    else { size_t q = r.pick(n + 2); if (kind == 4) g = c->DeleteFeatureAt(q); else if (kind == 2) g = d->DeleteStyleSelectorAt(q); else g = d->DeleteSchemaAt(q); if (q < v.size()) at = q; r.say("at " + str(q)); }
    r.step(); if (at < 0) r.check(!g, "own:array-deleted-other", ""); else { r.check(g.get() == v[at].get(), "own:array-deleted", "expected position " + str(at)); r.check(g->get_ref_count() == 2, "own:array-deleted-refs", ""); v.erase(v.begin() + at); id.erase(id.begin() + at); } g = NULL; verify(); }
  mk(0); verify(); v.clear(); d = NULL; fo = NULL; c = NULL;
}
// Every list slot of every class keeps three children of every mix of kinds in order.
static void lists(Run& r) {
  const Class& c = all()[r.pick(all().size())]; vector<int> ls; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].kind == LIST) ls.push_back(i); if (ls.empty()) r.prune();
  const sch::Field& f = c.f[r.of(ls)]; ElementPtr p = c.make(); vector<ElementPtr> v; r.nontrivial(); int n = f.accept.size() > 4 && !thorough ? 3 : 4;
  for (int i = 0; i < n; ++i) { ElementPtr k = to_dom(leaf(f.accept[r.pick(f.accept.size())], "k" + str(i))); f.setc(p.get(), k); r.step(); v.push_back(k); }
  r.eq(v.size(), f.size(p.get()), "own:list-size", c.cls + "." + f.api); for (size_t i = 0; i < v.size(); ++i) r.check(f.at(p.get(), i).get() == v[i].get() && v[i]->GetParent().get() == p.get(), "own:list-order", c.cls + "." + f.api + " at " + str(i));
}
// Large child arrays and large numbers of references.
static void scale(Run& r) {
  int n = r.of({8, 17, 33, 65, 129, 257, 1000}), kind = r.pick(3), at = r.pick(4); KmlFactory* F = KmlFactory::GetFactory(); DocumentPtr d = F->CreateDocument(); vector<ElementPtr> v; r.nontrivial(); for (int i = 0; i < n; ++i) { ObjectPtr o; if (kind == 0) { FeaturePtr x = F->CreatePlacemark(); d->add_feature(x); o = x; } else if (kind == 1) { StylePtr x = F->CreateStyle(); d->add_styleselector(x); o = x; } else { SchemaPtr x = F->CreateSchema(); d->add_schema(x); o = x; } o->set_id("i" + str(i)); v.push_back(o); r.step(); }
  auto get = [&](size_t i) -> ElementPtr { if (kind == 0) return d->get_feature_array_at(i); if (kind == 1) return d->get_styleselector_array_at(i); return d->get_schema_array_at(i); }; auto size = [&] { return kind == 0 ? d->get_feature_array_size() : kind == 1 ? d->get_styleselector_array_size() : d->get_schema_array_size(); };
  size_t p = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n - 2; { ElementPtr g; if (kind == 0) g = at % 2 ? d->DeleteFeatureById("i" + str(p)) : d->DeleteFeatureAt(p); else if (kind == 1) g = d->DeleteStyleSelectorAt(p); else g = d->DeleteSchemaAt(p); r.check(g.get() == v[p].get(), "own:scale-deleted", str(p)); v.erase(v.begin() + p); } r.eq(v.size(), size(), "own:scale-size"); for (size_t i = 0; i < v.size(); ++i) { bool same = get(i).get() == v[i].get(); r.check(same && v[i]->get_ref_count() == 2, "own:scale-order", str(i) + " of " + str(n)); }
  int refs = n == 1000 ? 70000 : n * 300; { vector<ElementPtr> many(refs, v[0]); r.eq(refs + 2, (int)v[0]->get_ref_count(), "own:scale-refs"); d = NULL; r.eq(refs + 1, (int)v[0]->get_ref_count(), "own:scale-refs"); } r.eq(1, (int)v[0]->get_ref_count(), "own:scale-refs"); r.check(!SerializeRaw(v[0]).empty(), "own:usable", ""); for (auto& e : v) r.check(!e->GetParent(), "own:parent-gone", str(n)); vector<ElementPtr> some; for (size_t i = 0; i < v.size(); i += 3) some.push_back(v[i]); v.clear(); for (auto& e : some) r.check(!e->GetParent() && e->get_ref_count() == 1, "own:parent-gone", str(n));
}
void mc_setup() {
  rule("arrays of up to 1000 children and 77000 references to one element; all sequences of add, set, replace, clear, delete and release operations up to the depth over pools of documents, folders, placemarks, geometries, styles and schemas, with parents, child order, slots and exact reference counts compared after every step; child arrays of up to 4 (5) children under every pair of deletions by position and id; every list slot of every class with every mix of child kinds; every slot of every class offered a child twice, to two parents and NULL; heap balance after releasing full trees");
  assume("an element is not added below itself; re-adding an element after it was removed, and the parent reported by an element removed from its living parent, are unspecified");
  static const vector<const char*> P1 = {"Document", "Folder", "Folder", "Placemark", "Placemark", "Point", "Style"}, P2 = {"Folder", "Folder", "Placemark", "Placemark"}, P3 = {"Placemark", "Placemark", "MultiGeometry", "Point", "LineString"}, P4 = {"Document", "Style", "Style", "Placemark", "Schema", "Schema"};
  add("pool3", [](Run& r) { run(r, P1, 3, true); }, BOTH, 2); add("pool4", [](Run& r) { run(r, P1, 4, true); }, THOROUGH, 2);
  add("folders", [](Run& r) { run(r, P2, thorough ? 6 : 4, true); }, BOTH, 2);
  add("geometry", [](Run& r) { run(r, P3, thorough ? 6 : 4, true); }, BOTH, 2);
  add("styles", [](Run& r) { run(r, P4, thorough ? 5 : 4, true); }, BOTH, 2);
  add("arrays", arrays); add("lists", lists); add("slots", slots); add("scale", scale); add("release", release, BOTH, 1);
}
