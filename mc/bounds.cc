// P24: bounding boxes against a reference over all small geometry trees.
#include "core.h"
#include "domgen.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/engine/bbox.h"
#include "kml/engine/location_util.h"
#include "kml/engine/feature_view.h"
#include "kml/convenience/feature_list.h"
#include <math.h>
using namespace mc; using std::string; using std::vector; using kmlengine::Bbox; using kmlbase::Vec3;
static kmldom::KmlFactory* F() { return kmldom::KmlFactory::GetFactory(); }
struct Ref { bool any = false; double n = 0, s = 0, e = 0, w = 0; void at(double la, double lo) { if (!any) { n = s = la; e = w = lo; any = true; return; } n = std::max(n, la); s = std::min(s, la); e = std::max(e, lo); w = std::min(w, lo); } };
static string bt(double n, double s, double e, double w) { return num(n) + "," + num(s) + "," + num(e) + "," + num(w); }
static string text(const Bbox& b) { return bt(b.get_north(), b.get_south(), b.get_east(), b.get_west()); }
static string text(const Ref& b) { return b.any ? bt(b.n, b.s, b.e, b.w) : "none"; }
// Calls fn with a fresh box, a used box and no box.
template <class Fn> static void judge(Run& r, const Ref& want, Fn fn, const string& what) {
  Bbox b; bool ok = fn(&b); r.check(ok == want.any, "bounds:has", what + (ok ? " reported bounds " + text(b) : " reported none") + ", want " + text(want)); if (ok) r.eq(text(want), text(b), "bounds:box", what); else r.eq(text(Bbox()), text(b), "bounds:box-changed", what); Bbox u(3, 2, 5, 4); Ref w2 = want; w2.at(3, 5); w2.at(2, 4); fn(&u); r.eq(text(w2), text(u), "bounds:expand", what); r.check(fn((Bbox*)NULL) == want.any, "bounds:null", what);
}
template <class Fn> static void center(Run& r, const Ref& want, Fn fn, const string& what) { double la = 777, lo = 777; bool ok = fn(&la, &lo); r.check(ok == want.any, "bounds:location", what); if (ok) r.eq(num((want.n + want.s) / 2) + "," + num((want.e + want.w) / 2), num(la) + "," + num(lo), "bounds:center", what); else r.check(la == 777 && lo == 777, "bounds:center-changed", what); r.check(fn((double*)NULL, (double*)NULL) == want.any, "bounds:null", what); }
static const vector<double> LA = {-90, -0.5, 0, 45, 90}, LO = {-180, -0.25, 0, 10, 180};
static void coords(Run& r) {
  int kind = r.pick(5), n = r.pick(4); if (n == 3 && kind > (thorough ? 2 : 0)) r.prune(); Ref want; vector<Vec3> v; string what; for (int i = 0; i < n; ++i) { double la = r.of(LA), lo = r.of(LO); v.push_back(r.flip() && i == 0 ? Vec3(lo, la, 1e6) : Vec3(lo, la)); want.at(la, lo); what += num(la) + "," + num(lo) + " "; } r.nontrivial(); r.step(); kmldom::CoordinatesPtr c = F()->CreateCoordinates(); for (auto& x : v) c->add_vec3(x); r.state(text(want));
  switch (kind) { case 0: judge(r, want, [&](Bbox* b) { return kmlengine::GetCoordinatesBounds(c, b); }, what); break; case 1: { kmldom::LineStringPtr g = F()->CreateLineString(); g->set_coordinates(c); judge(r, want, [&](Bbox* b) { return kmlengine::GetGeometryBounds(g, b); }, what); center(r, want, [&](double* a, double* o) { return kmlengine::GetGeometryLatLon(g, a, o); }, what); break; } case 2: { kmldom::GxTrackPtr g = F()->CreateGxTrack(); for (auto& x : v) g->add_gx_coord(x); judge(r, want, [&](Bbox* b) { return kmlengine::GetGeometryBounds(g, b); }, "gx:Track " + what); break; } case 3: { kmldom::LinearRingPtr g = F()->CreateLinearRing(); g->set_coordinates(c); judge(r, want, [&](Bbox* b) { return kmlengine::GetGeometryBounds(g, b); }, what); break; } default: { kmldom::PointPtr g = F()->CreatePoint(); g->set_coordinates(c); double la = 7, lo = 7; bool ok = kmlengine::GetPointLatLon(g, &la, &lo); r.check(ok == (n > 0), "bounds:point", what); if (n) r.check(la == v[0].get_latitude() && lo == v[0].get_longitude(), "bounds:point", what); if (n == 1) judge(r, want, [&](Bbox* b) { return kmlengine::GetGeometryBounds(g, b); }, what); } }
}
// A tree generator in which every location extends the box in its own direction.
struct G {
  Run& r; Ref want; int k = 0; string what; G(Run& x) : r(x) {}
  Vec3 next(bool count = true) { int i = k++; double d = 10 + 3 * i, la = 1, lo = 2; switch (i % 4) { case 0: la = d; break; case 1: lo = -d; break; case 2: la = -d; break; default: lo = d; } if (count) want.at(la, lo); return Vec3(lo, la, i); }
  kmldom::CoordinatesPtr cs(int n) { kmldom::CoordinatesPtr c = F()->CreateCoordinates(); for (int i = 0; i < n; ++i) c->add_vec3(next()); return c; }
  template <class P> P line(P g, const char* nm) { int n = r.pick(3); if (n) g->set_coordinates(cs(n == 1 ? 0 : 2)); what += string(nm) + num(n) + " "; return g; }
  kmldom::GxTrackPtr track() { kmldom::GxTrackPtr t = F()->CreateGxTrack(); int n = r.pick(3); for (int i = 0; i < n; ++i) t->add_gx_coord(next()); what += "Track" + num(n) + " "; return t; }
  kmldom::GeometryPtr geo(int depth) {
    switch (r.pick(depth > 0 ? 8 : 7)) {
      case 0: { kmldom::PointPtr p = F()->CreatePoint(); int n = r.pick(3); if (n) p->set_coordinates(cs(n - 1)); what += "Point" + num(n) + " "; return p; }
      case 1: return line(kmldom::LineStringPtr(F()->CreateLineString()), "LineString"); case 2: return line(kmldom::LinearRingPtr(F()->CreateLinearRing()), "LinearRing");
      case 3: { kmldom::PolygonPtr p = F()->CreatePolygon(); int n = r.pick(4); what += "Polygon" + num(n) + " "; if (n) { kmldom::OuterBoundaryIsPtr o = F()->CreateOuterBoundaryIs(); if (n > 1) { kmldom::LinearRingPtr l = F()->CreateLinearRing(); if (n > 2) l->set_coordinates(cs(3)); o->set_linearring(l); } p->set_outerboundaryis(o); if (n == 3) { kmldom::InnerBoundaryIsPtr in = F()->CreateInnerBoundaryIs(); kmldom::LinearRingPtr l = F()->CreateLinearRing(); kmldom::CoordinatesPtr c = F()->CreateCoordinates(); c->add_latlng(want.s, want.w); l->set_coordinates(c); in->set_linearring(l); p->add_innerboundaryis(in); } } return p; }
      case 4: { kmldom::ModelPtr m = F()->CreateModel(); int n = r.pick(2); what += "Model" + num(n) + " "; if (n) { Vec3 v = next(); kmldom::LocationPtr l = F()->CreateLocation(); l->set_latitude(v.get_latitude()); l->set_longitude(v.get_longitude()); m->set_location(l); } return m; }
      case 5: return track();
      case 6: { kmldom::GxMultiTrackPtr m = F()->CreateGxMultiTrack(); int n = r.pick(3); what += "MultiTrack("; for (int i = 0; i < n; ++i) m->add_gx_track(track()); what += ") "; return m; }
      default: { kmldom::MultiGeometryPtr m = F()->CreateMultiGeometry(); int n = r.pick(depth > 1 || thorough ? 3 : 2); what += "Multi("; for (int i = 0; i < n; ++i) m->add_geometry(geo(depth - 1)); what += ") "; return m; }
    }
  }
  int top = 0;
  kmldom::FeaturePtr feat(int depth, int gd) {
    switch (r.pick(depth > 0 ? 6 : 4)) {
      case 0: { kmldom::PlacemarkPtr p = F()->CreatePlacemark(); what += "Placemark "; if (r.flip()) p->set_geometry(geo(gd)); return p; }
      case 1: { kmldom::PhotoOverlayPtr p = F()->CreatePhotoOverlay(); int n = r.pick(4); what += "PhotoOverlay" + num(n) + " "; if (n) { kmldom::PointPtr q = F()->CreatePoint(); if (n > 1) q->set_coordinates(cs(n - 2)); p->set_point(q); } return p; }
      case 2: what += "ScreenOverlay "; return F()->CreateScreenOverlay();
      case 3: what += "NetworkLink "; return F()->CreateNetworkLink();
      default: { bool doc = false; kmldom::ContainerPtr c; int n; if (depth % 2 == 0 ? true : r.flip()) { c = F()->CreateDocument(); doc = true; } else c = F()->CreateFolder(); n = r.pick(depth > 1 ? 3 : top == 2 ? 2 : 3); what += doc ? "Document(" : "Folder("; for (int i = 0; i < n; ++i) c->add_feature(feat(depth - 1, 0)); what += ") "; return c; }
    }
  }
};
static void geos(Run& r) { G g(r); kmldom::GeometryPtr x = g.geo(2); if (g.k > 9) r.prune(); r.nontrivial(); r.step(); r.say(g.what); r.state(text(g.want)); judge(r, g.want, [&](Bbox* b) { return kmlengine::GetGeometryBounds(x, b); }, g.what); center(r, g.want, [&](double* a, double* o) { return kmlengine::GetGeometryLatLon(x, a, o); }, g.what); kmldom::PlacemarkPtr p = F()->CreatePlacemark(); p->set_geometry(x); center(r, g.want, [&](double* a, double* o) { return kmlengine::GetPlacemarkLatLon(p, a, o); }, g.what); center(r, g.want, [&](double* a, double* o) { return kmlengine::GetFeatureLatLon(p, a, o); }, g.what); if (kmldom::ModelPtr m = kmldom::AsModel(x)) { judge(r, g.want, [&](Bbox* b) { return kmlengine::GetModelBounds(m, b); }, g.what); center(r, g.want, [&](double* a, double* o) { return kmlengine::GetModelLatLon(m, a, o); }, g.what); } }
static void judgeView(Run& r, const Ref& w, const kmldom::LookAtPtr& l, const string& what);
static void feats(Run& r) { G g(r); g.top = thorough ? 0 : 2; kmldom::FeaturePtr x = g.feat(2, 1); r.nontrivial(); r.step(); r.say(g.what); r.state(text(g.want)); judge(r, g.want, [&](Bbox* b) { return kmlengine::GetFeatureBounds(x, b); }, g.what); center(r, g.want, [&](double* a, double* o) { return kmlengine::GetFeatureLatLon(x, a, o); }, g.what); kmldom::LookAtPtr l = kmlengine::ComputeFeatureLookAt(x); r.check((l != NULL) == g.want.any, "bounds:view-has", g.what); if (l) judgeView(r, g.want, l, g.what); }
static void lists(Run& r) { G g(r); kmlconvenience::FeatureList fl; g.top = 2; int n = r.pick(thorough ? 4 : 3); for (int i = 0; i < n; ++i) fl.PushBack(g.feat(i == 0 ? 1 : 0, 0)); r.nontrivial(); r.step(); judge(r, g.want, [&](Bbox* b) { fl.ComputeBoundingBox(b); return g.want.any; }, "list " + g.what); r.check(fl.Size() == (size_t)n, "bounds:list", ""); }
static double rad(double d) { return d * M_PI / 180; }
static double dist(double a, double b, double c, double d) { double h = pow(sin(rad(c - a) / 2), 2) + cos(rad(a)) * cos(rad(c)) * pow(sin(rad(d - b) / 2), 2); return 2 * 6366710.0 * asin(sqrt(std::min(1.0, h))); }
static void judgeView(Run& r, const Ref& w, const kmldom::LookAtPtr& l, const string& what) { double la = (w.n + w.s) / 2, lo = (w.e + w.w) / 2; r.check(l->get_latitude() == la && l->get_longitude() == lo, "bounds:view-center", what); double dn = dist(la, lo, w.n, lo), dw = dist(la, lo, la, w.w), d = sqrt(dn * dn + dw * dw); r.check(l->get_range() >= 1000 && l->get_range() * tan(rad(30)) >= d * 1.05 && (l->get_range() == 1000 || l->get_range() * tan(rad(30)) <= d * 1.35), "bounds:view-range", what + " range " + num(l->get_range()) + " for " + num(d)); r.check(l->get_altitudemode() == kmldom::ALTITUDEMODE_RELATIVETOGROUND && l->get_altitude() == 0 && l->get_tilt() == 0 && l->get_heading() == 0, "bounds:view-straight", what); }
static void views(Run& r) { static const vector<double> A = {-90, -60, -1, 0, 0.001, 10, 89, 90}, O = {-180, -90, -0.001, 0, 45, 179, 180}; Ref w; w.at(r.of(A), r.of(O)); w.at(r.of(A), r.of(O)); r.nontrivial(); r.step(); judgeView(r, w, kmlengine::ComputeBboxLookAt(Bbox(w.n, w.s, w.e, w.w)), text(w)); }
// All pairs of boxes, the empty one included.
static Bbox box(Run& r, Ref* w) { if (r.flip()) { *w = Ref(); return Bbox(); } double a = r.of(LA), b = r.of(LA); if (a < b) r.prune(); double c = r.of(LO), d = r.of(LO); if (c < d) r.prune(); *w = Ref(); w->at(a, c); w->at(b, d); return Bbox(a, b, c, d); }
static void boxes(Run& r) {
  Ref x, y; Bbox a = box(r, &x), b = box(r, &y); r.nontrivial(); r.step(); string what = text(x) + " and " + text(y); bool in = !x.any || (y.any && x.n <= y.n && x.s >= y.s && x.e <= y.e && x.w >= y.w); if (x.any && y.any) { r.check(a.ContainedByBbox(b) == in, "bounds:contained", what); r.check(a.ContainedByBox(y.n, y.s, y.e, y.w) == in, "bounds:contained", what); } if (x.any) r.check(a.ContainedByBbox(a), "bounds:contained-self", what); Bbox c = a; c.ExpandFromBbox(b); Ref u = x; if (y.any) { u.at(y.n, y.e); u.at(y.s, y.w); } r.eq(u.any ? text(u) : text(Bbox()), text(c), "bounds:expand-box", what); if (x.any) r.check(a.ContainedByBbox(c), "bounds:expand-contains", what); if (y.any) r.check(b.ContainedByBbox(c), "bounds:expand-contains", what);
}
static void oneBox(Run& r) {
  Ref x; Bbox a = box(r, &x); r.nontrivial(); r.step();
  if (x.any) { for (double la : LA) for (double lo : LO) r.check(a.Contains(la, lo) == (la <= x.n && la >= x.s && lo <= x.e && lo >= x.w), "bounds:contains", text(x) + " " + num(la) + "," + num(lo)); double m = 0, n = 0; a.GetCenter(&m, &n); r.check(m == (x.n + x.s) / 2 && n == (x.e + x.w) / 2 && a.GetCenterLat() == m && a.GetCenterLon() == n, "bounds:box-center", text(x)); a.GetCenter(NULL, NULL); kmldom::LatLonBoxPtr l = F()->CreateLatLonBox(); l->set_north(x.n); l->set_south(x.s); l->set_east(x.e); l->set_west(x.w); double p = 0, q = 0; kmlengine::GetCenter(l, &p, &q); r.check(p == m && q == n, "bounds:latlonbox-center", text(x)); kmlengine::GetCenter(l, NULL, NULL); p = 5; kmlengine::GetCenter(NULL, &p, &q); r.check(p == 5, "bounds:null", ""); Bbox d(a); double la = r.of(LA), lo = r.of(LO); d.ExpandLatLon(la, lo); Ref v = x; v.at(la, lo); r.eq(text(v), text(d), "bounds:expand-point", text(x)); } else for (double la : LA) for (double lo : LO) r.check(!a.Contains(la, lo), "bounds:empty-contains", "");
}
// Alignment: the smallest cell of the quadtree below qt, to the given depth.
static void align(Run& r) {
  static const vector<double> roots = {180, 64}; double h = r.of(roots); int depth = r.pick(thorough ? 7 : 5); static const vector<double> frac = {-1.25, -1, -0.5, -0.4, -0.125, 0, 0.0625, 0.3, 0.75, 1}; double n = h * r.of(frac), s = h * r.of(frac), e = h * r.of(frac), w = h * r.of(frac); if (n < s || e < w) r.prune(); Bbox a(n, s, e, w), qt(h, -h, h, -h); string what = bt(n, s, e, w) + " depth " + num(depth); a.AlignBbox(&qt, depth); r.nontrivial(); r.step(); r.eq(bt(n, s, e, w), text(a), "bounds:align-changed", what);
  auto fits = [&](double qn, double qs, double qe, double qw) { return n <= qn && s >= qs && e <= qe && w >= qw; }; // chains of cells containing the box
  bool found = false; string seen; std::function<void(double, double, double, double, int)> go = [&](double qn, double qs, double qe, double qw, int d) { double m = (qn + qs) / 2, o = (qe + qw) / 2; bool deeper = false; if (d <= depth) { if (fits(qn, m, qe, o)) { deeper = true; go(qn, m, qe, o, d + 1); } if (fits(qn, m, o, qw)) { deeper = true; go(qn, m, o, qw, d + 1); } if (fits(m, qs, qe, o)) { deeper = true; go(m, qs, qe, o, d + 1); } if (fits(m, qs, o, qw)) { deeper = true; go(m, qs, o, qw, d + 1); } } if (!deeper || d == depth) { seen += bt(qn, qs, qe, qw) + "; "; if (text(qt) == bt(qn, qs, qe, qw)) found = true; } };
  go(h, -h, h, -h, 0); r.check(found, "bounds:align", what + " gave " + text(qt) + ", want one of " + seen); if (fits(h, -h, h, -h)) r.check(a.ContainedByBbox(qt), "bounds:align-contains", what); else r.eq(bt(h, -h, h, -h), text(qt), "bounds:align-outside", what); a.AlignBbox(NULL, 3);
}
static void nulls(Run& r) { r.nontrivial(); Bbox b; double d = 7; r.check(!kmlengine::GetCoordinatesBounds(NULL, &b) && !kmlengine::GetGeometryBounds(NULL, &b) && !kmlengine::GetFeatureBounds(NULL, &b) && !kmlengine::GetModelBounds(NULL, &b) && !kmlengine::GetPointLatLon(NULL, &d, &d) && !kmlengine::GetModelLatLon(NULL, &d, &d) && !kmlengine::GetFeatureLatLon(NULL, &d, &d) && !kmlengine::GetGeometryLatLon(NULL, &d, &d) && kmlengine::ComputeFeatureLookAt(NULL) == NULL && d == 7, "bounds:null", ""); }
// Nothing but its geometry decides where a feature is: any other field may be present.
static void decorated(Run& r) {
  static const vector<string> K = {"Placemark", "PhotoOverlay", "Folder", "Document"}; const string& k = r.of(K); dg::M m(k); int n = m.c->f.size(), i = r.pick(n), j = r.pick(n); if (j < i) r.prune(); for (int q : {i, j}) { const string& a = m.c->f[q].api; if (a == "geometry" || a == "point" || a == "feature") r.prune(); }
  dg::put(m, i, "x"); if (i != j) dg::put(m, j, "y"); dg::ElementPtr e = dg::to_dom(m); int has = r.pick(2); kmldom::PointPtr p = F()->CreatePoint(); p->set_coordinates(F()->CreateCoordinates()); p->get_coordinates()->add_latlng(12, -34); Ref want; if (has) { want.at(12, -34); if (k == "Placemark") kmldom::AsPlacemark(e)->set_geometry(p); else if (k == "PhotoOverlay") kmldom::AsPhotoOverlay(e)->set_point(p); else { kmldom::PlacemarkPtr q = F()->CreatePlacemark(); q->set_geometry(p); kmldom::AsContainer(e)->add_feature(q); } }
  kmldom::FeaturePtr f = kmldom::AsFeature(e); r.nontrivial(); r.step(); string what = kmldom::SerializeRaw(f); r.say(what); judge(r, want, [&](Bbox* b) { return kmlengine::GetFeatureBounds(f, b); }, what); center(r, want, [&](double* a, double* b) { return kmlengine::GetFeatureLatLon(f, a, b); }, what);
}
// Geometry decorated with every other field.
static void dressed(Run& r) {
  static const vector<string> K = {"Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model"}; const string& k = r.of(K); dg::M m(k); int n = m.c->f.size(), i = r.pick(n); { const string& a = m.c->f[i].api; if (a == "coordinates" || a == "geometry" || a == "location" || a == "outerboundaryis" || a == "innerboundaryis") r.prune(); } dg::put(m, i, "x"); dg::ElementPtr e = dg::to_dom(m); Ref want; want.at(5, 6); want.at(-7, 8); kmldom::CoordinatesPtr c = F()->CreateCoordinates(); c->add_latlng(5, 6); c->add_latlngalt(-7, 8, 9);
  if (k == "Point") kmldom::AsPoint(e)->set_coordinates(c); else if (k == "LineString") kmldom::AsLineString(e)->set_coordinates(c); else if (k == "LinearRing") kmldom::AsLinearRing(e)->set_coordinates(c); else if (k == "Polygon") { kmldom::OuterBoundaryIsPtr o = F()->CreateOuterBoundaryIs(); kmldom::LinearRingPtr l = F()->CreateLinearRing(); l->set_coordinates(c); o->set_linearring(l); kmldom::AsPolygon(e)->set_outerboundaryis(o); } else if (k == "MultiGeometry") { kmldom::LineStringPtr l = F()->CreateLineString(); l->set_coordinates(c); kmldom::AsMultiGeometry(e)->add_geometry(l); } else { kmldom::LocationPtr l = F()->CreateLocation(); l->set_latitude(5); l->set_longitude(6); kmldom::AsModel(e)->set_location(l); want = Ref(); want.at(5, 6); }
  kmldom::GeometryPtr g = kmldom::AsGeometry(e); r.nontrivial(); r.step(); string what = kmldom::SerializeRaw(g); r.say(what); judge(r, want, [&](Bbox* b) { return kmlengine::GetGeometryBounds(g, b); }, what); center(r, want, [&](double* a, double* b) { return kmlengine::GetGeometryLatLon(g, a, b); }, what); kmldom::PlacemarkPtr p = F()->CreatePlacemark(); p->set_geometry(g); judge(r, want, [&](Bbox* b) { return kmlengine::GetFeatureBounds(p, b); }, what);
}
static void scale(Run& r) {
  int n = r.of({8, 17, 33, 65, 129, 257, 1025}), at = r.pick(4), how = r.pick(4); size_t p = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n - 2; Ref want; r.nontrivial(); r.step(); auto la = [&](int i) { return i == (int)p ? 80.0 : -(i % 40) * 1.0; }; auto lo = [&](int i) { return i == (int)p ? -170.0 : (i % 90) * 1.0; }; for (int i = 0; i < n; ++i) want.at(la(i), lo(i)); string what = str(how) + " " + str(n) + " at " + str(p);
  auto pt = [&](int i) { kmldom::PointPtr q = F()->CreatePoint(); q->set_coordinates(F()->CreateCoordinates()); q->get_coordinates()->add_latlng(la(i), lo(i)); return q; };
  if (how == 0) { kmldom::CoordinatesPtr c = F()->CreateCoordinates(); for (int i = 0; i < n; ++i) c->add_latlng(la(i), lo(i)); judge(r, want, [&](Bbox* b) { return kmlengine::GetCoordinatesBounds(c, b); }, what); } else if (how == 1) { kmldom::MultiGeometryPtr g = F()->CreateMultiGeometry(); for (int i = 0; i < n; ++i) g->add_geometry(pt(i)); judge(r, want, [&](Bbox* b) { return kmlengine::GetGeometryBounds(g, b); }, what); }
  else if (how == 2) { kmldom::FolderPtr f = F()->CreateFolder(); for (int i = 0; i < n; ++i) { kmldom::PlacemarkPtr m = F()->CreatePlacemark(); m->set_geometry(pt(i)); f->add_feature(m); } judge(r, want, [&](Bbox* b) { return kmlengine::GetFeatureBounds(f, b); }, what); }
  else { kmldom::FolderPtr top = F()->CreateFolder(), f = top; for (int i = 0; i < n; ++i) { kmldom::PlacemarkPtr m = F()->CreatePlacemark(); m->set_geometry(pt(i)); f->add_feature(m); kmldom::FolderPtr g = F()->CreateFolder(); f->add_feature(g); f = g; } judge(r, want, [&](Bbox* b) { return kmlengine::GetFeatureBounds(top, b); }, what); }
}
// Polygons with any number of holes, of every shape, before or after the outline.
static void holes(Run& r) {
  int n = r.pick(thorough ? 6 : 5); kmldom::PolygonPtr g = F()->CreatePolygon(); bool late = r.flip(), out = r.flip(); Ref want; auto outline = [&] { if (!out) return; kmldom::OuterBoundaryIsPtr o = F()->CreateOuterBoundaryIs(); kmldom::LinearRingPtr l = F()->CreateLinearRing(); kmldom::CoordinatesPtr c = F()->CreateCoordinates(); for (auto& q : {std::make_pair(40.0, 50.0), std::make_pair(-30.0, 60.0), std::make_pair(10.0, -20.0), std::make_pair(40.0, 50.0)}) { c->add_latlng(q.first, q.second); want.at(q.first, q.second); } l->set_coordinates(c); o->set_linearring(l); g->set_outerboundaryis(o); }; if (!late) outline();
  for (int i = 0; i < n; ++i) { kmldom::InnerBoundaryIsPtr in = F()->CreateInnerBoundaryIs(); int k = r.pick(4); if (k) { kmldom::LinearRingPtr l = F()->CreateLinearRing(); if (k > 1) { kmldom::CoordinatesPtr c = F()->CreateCoordinates(); if (k > 2) for (int q = 0; q < 4; ++q) c->add_latlng(10 + i + q % 3, 40 + q % 2); l->set_coordinates(c); } in->set_linearring(l); } g->add_innerboundaryis(in); } if (late) outline(); if (!out) for (int i = 0; i < n; ++i) if (g->get_innerboundaryis_array_at(i)->has_linearring()) r.prune();
  r.nontrivial(); r.step(); string what = kmldom::SerializeRaw(g); r.say(what); judge(r, want, [&](Bbox* b) { return kmlengine::GetGeometryBounds(g, b); }, what); center(r, want, [&](double* a, double* b) { return kmlengine::GetGeometryLatLon(g, a, b); }, what); kmldom::MultiGeometryPtr m = F()->CreateMultiGeometry(); m->add_geometry(g); kmldom::PlacemarkPtr p = F()->CreatePlacemark(); p->set_geometry(m); judge(r, want, [&](Bbox* b) { return kmlengine::GetFeatureBounds(p, b); }, what);
}
void mc_setup() {
  rule("features and geometries with every other field (pair of fields) present; up to 1025 coordinates, members or nested folders with the extreme at each end; coordinate lists of up to 3 over a 5x5 grid in every holder; every geometry tree of depth 2 over 8 geometry kinds and every feature tree of depth 2 over 6 feature kinds, with every location an extreme of its own; lists of features; all pairs of boxes over the grid with the empty box; alignment of all boxes over a 10x10 grid at every depth; views of all boxes over an 8x7 grid; compared with a direct fold over the locations placed; polygons with up to 4 holes of 4 shapes");
  assume("latitudes and longitudes within +-180; boxes do not cross the antimeridian; inner boundaries lie within the outer one; ground overlays have no location (TODO in location_util.cc)");
  add("coordinates", coords); add("geometries", geos); add("features", feats); add("lists", lists); add("decorated", decorated); add("dressed", dressed); add("scale", scale); add("views", views); add("boxes", boxes); add("one-box", oneBox); add("align", align); add("null", nulls, BOTH, 1);
  add("holes", holes);
}
