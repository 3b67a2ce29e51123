// P28: types, casts, factory, visitors, feature walks.
#include "domgen.h"
#include <string.h>
#include "kml/dom/xsd.h"
#include "kml/dom/visitor.h"
#include "kml/dom/visitor_driver.h"
#include "kml/engine/feature_visitor.h"
using namespace mc; using namespace dg;

#define VISITS(X) \
 X(AbstractLatLonBox) X(AbstractLink) X(AbstractView) X(Alias) X(BalloonStyle) X(BasicLink) X(Camera) X(Change) X(ColorStyle) X(Container) \
 X(Coordinates) X(Create) X(Data) X(Delete) X(Document) X(ExtendedData) X(Feature) X(Field) X(Folder) X(Geometry) X(GroundOverlay) X(GxAnimatedUpdate) \
 X(GxFlyTo) X(GxLatLonQuad) X(GxMultiTrack) X(GxPlaylist) X(GxSimpleArrayData) X(GxSimpleArrayField) X(GxSoundCue) X(GxTimeSpan) X(GxTimeStamp) \
 X(GxTour) X(GxTourControl) X(GxTourPrimitive) X(GxTrack) X(GxWait) X(HotSpot) X(Icon) X(IconStyle) X(IconStyleIcon) X(ImagePyramid) \
 X(InnerBoundaryIs) X(ItemIcon) X(Kml) X(LabelStyle) X(LatLonAltBox) X(LatLonBox) X(LineString) X(LineStyle) X(LinearRing) X(Link) X(LinkSnippet) \
 X(ListStyle) X(Location) X(Lod) X(LookAt) X(Metadata) X(Model) X(MultiGeometry) X(NetworkLink) X(NetworkLinkControl) X(Object) X(Orientation) \
 X(OuterBoundaryIs) X(Overlay) X(OverlayXY) X(Pair) X(PhotoOverlay) X(Placemark) X(Point) X(PolyStyle) X(Polygon) X(Region) X(ResourceMap) \
 X(RotationXY) X(Scale) X(Schema) X(SchemaData) X(ScreenOverlay) X(ScreenXY) X(SimpleData) X(SimpleField) X(Size) X(Snippet) X(Style) \
 X(StyleMap) X(StyleSelector) X(SubStyle) X(TimePrimitive) X(TimeSpan) X(TimeStamp) X(Update) X(UpdateOperation) X(Url) X(Vec2) X(ViewVolume) \

#define CASTS(X) \
 X(AbstractLatLonBox) X(AbstractView) X(ColorStyle) X(Container) X(Feature) X(Geometry) X(Object) X(Overlay) X(StyleSelector) X(SubStyle) \
 X(TimePrimitive) X(Alias) X(BalloonStyle) X(Camera) X(Change) X(Create) X(Data) X(Delete) X(Document) X(Folder) X(GroundOverlay) X(HotSpot) \
 X(Icon) X(IconStyle) X(IconStyleIcon) X(ImagePyramid) X(InnerBoundaryIs) X(ItemIcon) X(LabelStyle) X(LatLonAltBox) X(LatLonBox) X(LineString) \
 X(LineStyle) X(LinearRing) X(Link) X(LinkSnippet) X(ListStyle) X(Location) X(Lod) X(LookAt) X(Model) X(MultiGeometry) X(NetworkLink) \
 X(Orientation) X(OuterBoundaryIs) X(OverlayXY) X(Pair) X(PhotoOverlay) X(Placemark) X(Point) X(PolyStyle) X(Polygon) X(Region) X(ResourceMap) \
 X(RotationXY) X(Scale) X(Schema) X(SchemaData) X(ScreenOverlay) X(ScreenXY) X(Size) X(Snippet) X(Style) X(StyleMap) X(TimeSpan) X(TimeStamp) \
 X(ViewVolume) X(GxAnimatedUpdate) X(GxFlyTo) X(GxLatLonQuad) X(GxMultiTrack) X(GxPlaylist) X(GxSoundCue) X(GxTimeSpan) X(GxTimeStamp) \
 X(GxTour) X(GxTourControl) X(GxTourPrimitive) X(GxTrack) X(GxWait)

struct Cast { string name; std::function<const void*(const ElementPtr&)> fn; };
static const vector<Cast>& casts() {
#define X(N) {#N, [](const ElementPtr& e) { return (const void*)static_cast<const Element*>(kmldom::As##N(e).get()); }},
  static vector<Cast> v = { CASTS(X) };
#undef X
  return v;
}
static bool kind_of(const Class& c, const string& n) { if (c.cls == n) return true; for (auto& a : c.isa) if (a == n) return true; return false; }
static void cast(Run& r) {
  const Class& c = all()[r.pick(all().size())]; const Cast& k = r.of(casts()); ElementPtr e = c.make(); r.nontrivial(); r.step();
  const void* p = k.fn(e); bool want = kind_of(c, k.name);
  r.check(want == (p != NULL), "types:cast", "As" + k.name + " of " + c.cls + (p ? " succeeds" : " fails"));
  if (p) r.check(p == e.get(), "types:cast-other", k.name);
  r.check(!k.fn(ElementPtr()), "types:cast-null", k.name);
  r.check((int)e->Type() == c.type, "types:type", c.cls);
}
static void isa(Run& r) {
  const Class& c = all()[r.pick(all().size())]; const Class& d = all()[r.pick(all().size())]; ElementPtr e = c.make(); r.nontrivial(); r.step();
  r.check(e->IsA((kmldom::KmlDomType)d.type) == kind_of(c, d.cls), "types:isa", c.cls + " IsA " + d.cls);
}
static void factory(Run& r) {
  const Class& c = all()[r.pick(all().size())]; int how = r.pick(3); kmldom::KmlFactory* f = kmldom::KmlFactory::GetFactory(); r.nontrivial(); r.step();
  ElementPtr e = how == 0 ? f->CreateElementById((kmldom::KmlDomType)c.type) : how == 1 ? f->CreateElementFromName(c.tag) : c.make();
  if (how == 1 && c.cls == "IconStyleIcon") r.prune();
  r.check(e.get() != NULL, "types:factory-null", c.cls); r.check((int)e->Type() == c.type, "types:factory", c.cls + " how " + str(how));
  string why; r.check(equals(M(c), e, &why, false), "types:factory-state", why);
  r.check(e->get_ref_count() == 1, "types:factory-refs", c.cls);
  for (auto bad : {"", "nosuch", "placemark", "Placemark ", "kml2", "name", "coordinate"}) r.check(!f->CreateElementFromName(bad) , "types:factory-invents", bad);
}
struct V1 : kmldom::Visitor {
  vector<std::pair<string, vector<string>>> log; bool in = false;  // per element: dispatch chain
  void hit(const string& n, const Element* e) { static const Element* cur = NULL; (void)cur; if (!in) { log.push_back({str((long long)(intptr_t)e), {}}); in = true; } log.back().second.push_back(n); }
#define X(N) virtual void Visit##N(const kmldom::N##Ptr& e) { hit(#N, e.get()); kmldom::Visitor::Visit##N(e); }
  VISITS(X)
#undef X
  virtual void VisitElement(const ElementPtr& e) { hit("Element", e.get()); in = false; }
};
static bool foreign(const string& t) { return t.compare(0, 5, "atom:") == 0 || t.compare(0, 4, "xal:") == 0; }
// Complex elements in document order, per the reference model, post or pre order.
static void order(const Node& n, bool pre, vector<string>* out) {
  static std::set<string> tags; if (tags.empty()) for (auto& c : all()) tags.insert(c.tag);
  bool me = tags.count(n.name) && !foreign(n.name); if (me && pre) out->push_back(n.name);
  if (!foreign(n.name)) for (auto& k : n.kid) order(k, pre, out);
  if (me && !pre) out->push_back(n.name);
}
// seq from *pos on is a pre-order walk of e; children of one list keep their
// order (reversed for a reversed post-order), the order of slots is free.
static bool ordered(const vector<const Element*>& seq, size_t* pos, const Element* e, bool fwd) {
  if (*pos >= seq.size() || seq[*pos] != e) return false;
  ++*pos; const Class* c = of_type(e->Type()); vector<vector<const Element*>> slots; size_t left = 0; Element* m = const_cast<Element*>(e);
  for (auto& f : c->f) if (f.complex()) { vector<const Element*> s;
    if (f.kind == CHILD) { if (ElementPtr k = f.getc(m)) s.push_back(k.get()); } else for (size_t i = 0; i < f.size(m); ++i) s.push_back(f.at(m, i).get());
    vector<const Element*> t; for (auto k : s) if (!foreign(of_type(k->Type())->tag)) t.push_back(k);
    if (fwd) std::reverse(t.begin(), t.end()); left += t.size(); slots.push_back(t); }  // next one at the back
  while (left) { bool ok = false;
    for (auto& s : slots) if (!s.empty() && *pos < seq.size() && s.back() == seq[*pos]) { const Element* k = s.back(); s.pop_back(); --left; if (!ordered(seq, pos, k, fwd)) return false; ok = true; break; }
    if (!ok) return false; }
  return true;
}
static void walk(Run& r, const M& m) {
  bool pre = r.flip(); ElementPtr e = to_dom(m); V1 v; r.nontrivial(); r.step();
  string before = kmldom::SerializeRaw(e);
  if (pre) { kmldom::SimplePreorderDriver d(&v); d.Visit(e); } else { kmldom::SimplePostorderDriver d(&v); d.Visit(e); }
  vector<string> want, got; vector<const Element*> seq; order(to_xml(m), pre, &want); std::set<string> seen;
  for (auto& l : v.log) {
    const Element* x = (const Element*)(intptr_t)strtoll(l.first.c_str(), NULL, 10); const Class* c = of_type(x->Type());
    r.check(c != NULL, "types:visit-type", str(x->Type()));
    if (foreign(c->tag)) continue;
    got.push_back(c->tag); seq.push_back(x); r.check(seen.insert(l.first).second, "types:visited-twice", c->cls + " in " + before);
    r.check(l.second[0] == c->cls, "types:dispatch", c->cls + " dispatched to " + l.second[0]);
    r.check(l.second.back() == "Element", "types:dispatch-top", c->cls);
    for (auto& a : c->isa) { int n = 0; for (auto& s : l.second) n += s == a; r.check(n == 1, "types:dispatch-chain", c->cls + " misses " + a); }
    for (auto& s : l.second) { bool is_class = false; for (auto& k : all()) is_class |= k.cls == s; if (is_class) r.check(kind_of(*c, s), "types:dispatch-extra", c->cls + " visits " + s); }
  }
  auto j = [](const vector<string>& a) { string o; for (auto& s : a) o += s + " "; return o; };
  vector<string> ws = want, gs = got; std::sort(ws.begin(), ws.end()); std::sort(gs.begin(), gs.end());
  r.check(ws == gs, "types:visit-set", "want " + j(want) + " got " + j(got));
  if (!pre) std::reverse(seq.begin(), seq.end());
  size_t pos = 0; r.check(ordered(seq, &pos, e.get(), pre) && pos == seq.size(), "types:visit-order", "want " + j(want) + " got " + j(got));
  r.eq(before, kmldom::SerializeRaw(e), "types:visit-changes");
}
static void visit_child(Run& r) {
  const Class& c = all()[r.pick(all().size())]; if (foreign(c.tag)) r.prune(); int i = r.pick(c.f.size() + 1); M m(c);
  if (i < (int)c.f.size()) { if (!c.f[i].complex()) r.prune(); put(m, i, "v", r.pick(c.f[i].accept.size())); }
  walk(r, m);
}
static void visit_pair(Run& r) {
  const Class& c = all()[r.pick(all().size())]; if (foreign(c.tag)) r.prune(); M m(c); int n = c.f.size(); if (!n) r.prune();
  int i = r.pick(n); if (!c.f[i].complex()) r.prune(); int j = r.pick(n); if (!c.f[j].complex()) r.prune();
  if (i == j ? !c.f[i].list() : false) r.prune();
  put(m, i, "a"); put(m, j, "b", 1); walk(r, m);
}
static void visit_deep(Run& r) {
  const Class& c = all()[r.pick(all().size())]; if (foreign(c.tag)) r.prune(); M m(c);
  for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex()) { int reps = c.f[i].list() ? 2 : 1; for (int k = 0; k < reps; ++k) {
    M kid(c.f[i].accept[k % c.f[i].accept.size()]); for (size_t q = 0; q < kid.c->f.size(); ++q) if (kid.c->f[q].complex()) put(kid, q, "z"); m.ch[i].push_back(kid); } }
  walk(r, m);
}
static void feature_walk(Run& r, int n) {
  static const char* K[] = {"Placemark", "Folder", "Document", "NetworkLink", "gx:Tour", "ScreenOverlay"};
  struct G { Run& r; int id; vector<string>* out; M go(int* left) { --*left; M m(K[r.pick(id == 0 ? 4 : 5)]); string nm = "n" + str(id++); m.set("name", nm); out->push_back(nm);
    if (m.c->by_api("feature")) while (*left > 0 && r.flip()) m.add("feature", go(left)); return m; } };
  vector<string> want; G g = {r, 0, &want}; int left = n; M f = g.go(&left); int root = r.pick(3);
  struct FV : kmlengine::FeatureVisitor { vector<string> got; virtual void VisitFeature(const kmldom::FeaturePtr& f) { got.push_back(f->get_name()); } } fv;
  ElementPtr e; if (root == 0) e = to_dom(f); else { M k("kml"); if (root == 1) k.add("feature", f); else want.clear(); e = to_dom(k); }
  r.nontrivial(); r.step(); kmlengine::VisitFeatureHierarchy(kmlengine::GetRootFeature(e), fv);
  string a, b; for (auto& s : want) a += s + " "; for (auto& s : fv.got) b += s + " "; r.eq(a, b, "types:feature-walk");
}
// Long lists and deep nests of every kind that has them.
static void scale(Run& r) {
  static const int N[] = {9, 17, 33, 65, 129, 257}; const Class& c = all()[r.pick(all().size())]; if (foreign(c.tag) || c.f.empty()) r.prune(); int i = r.pick(c.f.size()); if (!c.f[i].complex() || !c.f[i].list()) r.prune();
  int n = N[r.pick(thorough ? 6 : 5)]; M m(c); size_t k = c.f[i].accept.size(); for (int q = 0; q < n; ++q) put(m, i, ("v" + str(q)).c_str(), q % k); walk(r, m);
}
static void scale_features(Run& r) {
  static const int N[] = {9, 17, 33, 65, 129, 257, 1025}; int n = N[r.pick(7)], shape = r.pick(4); vector<string> want; M last("Placemark"); vector<M> up;
  struct FV : kmlengine::FeatureVisitor { vector<string> got; virtual void VisitFeature(const kmldom::FeaturePtr& f) { got.push_back(f->get_name()); } } fv;
  kmldom::KmlFactory* F = kmldom::KmlFactory::GetFactory(); kmldom::DocumentPtr d = F->CreateDocument(); d->set_name("r"); want.push_back("r"); kmldom::ContainerPtr at = d;
  for (int i = 0; i < n; ++i) { string nm = "n" + str(i); want.push_back(nm); if (shape == 0 || (shape == 2 && i % 3)) { kmldom::PlacemarkPtr p = F->CreatePlacemark(); p->set_name(nm); at->add_feature(p); } else { if (shape == 1 && i >= 257) { want.pop_back(); break; } kmldom::FolderPtr f = F->CreateFolder(); f->set_name(nm); if (shape == 3) { d->add_feature(f); kmldom::PlacemarkPtr p = F->CreatePlacemark(); p->set_name(nm + "p"); f->add_feature(p); want.push_back(nm + "p"); } else { at->add_feature(f); at = f; } } }
  r.nontrivial(); r.step(); kmlengine::VisitFeatureHierarchy(d, fv); r.check(fv.got.size() == want.size(), "types:feature-count", str(fv.got.size()) + " of " + str(want.size())); string a, b; for (auto& s : want) a += s + " "; for (auto& s : fv.got) b += s + " "; r.eq(a, b, "types:feature-walk");
}
// The name of every type, as an element name and as the name of its enumerator.
static void names(Run& r) {
  int t = r.pick(kmldom::Type_Invalid + 1); auto nm = [&](int i) { const char* s = kmldom::kmlDomTypeToString((kmldom::KmlDomType)i); r.check(s != NULL && !strncmp(s, "Type_", 5), "types:enumerator", str(i)); return string(s + 5); }; string n = nm(t); r.nontrivial(); r.step(); r.state(n);
  if (t == 0) r.eq("Unknown", n, "types:enumerator", ""); if (t == kmldom::Type_Invalid) { r.eq("Invalid", n, "types:enumerator", ""); r.eq("", kmldom::GetElementName(NULL), "types:name", ""); return; }
  for (int i = 0; i < t; ++i) r.check(nm(i) != n, "types:enumerator-twice", n);
  auto flat = [](string s) { size_t c = s.find(':'); if (c != string::npos) s = s.substr(0, c) + s.substr(c + 1); for (auto& ch : s) ch = tolower(ch); return s; };
  string x = kmldom::Xsd::GetSchema()->ElementName(t); bool real = t >= kmldom::Type_Alias && t != kmldom::Type_GxTourPrimitive; if (real && !x.empty() && n != "IconStyleIcon") r.eq(flat(x), flat(n), "types:enumerator", str(t));
  ElementPtr e = kmldom::KmlFactory::GetFactory()->CreateElementById((kmldom::KmlDomType)t); if (!e) return; r.eq(x, kmldom::GetElementName(e), "types:name", n); const Class* c = NULL; for (auto& k : all()) if (kmldom::Xsd::GetSchema()->ElementId(k.tag) == t) c = &k; if (c) r.eq(c->tag, kmldom::GetElementName(e), "types:name", n);
}
void mc_setup() {
  rule("the full matrix of element kinds times casts and of kinds times kinds for IsA; every kind made by id, by name and by its typed creator; for every kind: each child of each accepted kind, each pair of child slots, every slot filled two levels deep, walked pre- and post-order with every visit method recorded; all feature trees up to the bound; lists of 9 to 129 children of every kind; feature trees of 9 to 1025 features in 4 shapes; the name and enumerator of every type");
  assume("atom: and xal: elements are outside the visitor interface, which declares no visit methods for them");
  add("cast", cast); add("isa", isa); add("factory", factory); add("visit_child", visit_child); add("visit_pair", visit_pair); add("visit_deep", visit_deep, BOTH, 1);
  add("feature_walk", [](Run& r) { feature_walk(r, thorough ? 6 : 4); }, BOTH, 3);
  add("scale", scale, BOTH, 1); add("scale_features", scale_features, BOTH, 1);
  add("names", names, BOTH, 1);
}
