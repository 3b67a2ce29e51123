// P32: spherical formulas against vector geometry, and the convenience
// constructors and accessors against independently written elements.
#include "core.h"
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>
#include <memory>
#include "xmlnode.h"
#include "kml/dom.h"
#include "kml/dom/xsd.h"
#include "kml/engine.h"
#include "kml/engine/feature_view.h"
#include "kml/engine/bbox.h"
#include "kml/base/math_util.h"
#include "kml/base/date_time.h"
#include "kml/base/expat_parser.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/element_counter.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
using namespace mc; using std::string; using std::vector; using xn::Node;
namespace kc = kmlconvenience; namespace kb = kmlbase; using kmldom::SerializeRaw;
static const double R = 6366710, PI = 3.14159265358979323846;
struct P3 { double x, y, z; };
static double rad(double d) { return d * PI / 180; }
static P3 pt(double lat, double lng) { return {cos(rad(lat)) * cos(rad(lng)), cos(rad(lat)) * sin(rad(lng)), sin(rad(lat))}; }
static double dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static P3 cross(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(P3 a) { return sqrt(dot(a, a)); }
static double angle(P3 a, P3 b) { return atan2(len(cross(a, b)), dot(a, b)); }
static P3 north(double lat, double lng) { return {-sin(rad(lat)) * cos(rad(lng)), -sin(rad(lat)) * sin(rad(lng)), cos(rad(lat))}; }
static P3 east(double, double lng) { return {-sin(rad(lng)), cos(rad(lng)), 0}; }
static P3 dest(double lat, double lng, double d, double radial) { P3 p = pt(lat, lng), n = north(lat, lng), e = east(lat, lng); double c = cos(d / R), s = sin(d / R), cn = cos(rad(radial)), se = sin(rad(radial)); return {p.x * c + s * (n.x * cn + e.x * se), p.y * c + s * (n.y * cn + e.y * se), p.z * c + s * (n.z * cn + e.z * se)}; }
static double gap(P3 a, P3 b) { P3 d = {a.x - b.x, a.y - b.y, a.z - b.z}; return len(d); }
static const vector<double>& LAT() { static const vector<double> q = {-90, -89.9, -45, -30, -1e-5, 0, 1e-5, 12.5, 30, 45, 60, 89.9, 90}, t = {-90, -89.9999, -89.9, -75, -60, -45, -37.5, -30, -15, -1, -1e-5, 0, 1e-5, 0.5, 12.5, 22.25, 30, 37.5, 45, 52, 60, 75, 89, 89.9, 89.9999, 90}; return thorough ? t : q; }
static const vector<double>& LNG() { static const vector<double> q = {-180, -179.999, -135, -90, -30, -1e-5, 0, 1e-5, 15, 60, 90, 150, 179.999, 180}, t = {-180, -179.999, -170, -150, -135, -120, -90, -60, -45, -30, -10, -1, -1e-5, 0, 1e-5, 1, 15, 30, 45, 60, 75, 90, 120, 150, 165, 179, 179.999, 180}; return thorough ? t : q; }
static string at(double a, double b) { return num(a) + "," + num(b); }
// Distance and azimuth between every pair of grid points.
static void pairs(Run& r) {
  double a = r.of(LAT()), b = r.of(LNG()), c = r.of(LAT()), d = r.of(LNG()); r.nontrivial(); r.step(); string ctx = at(a, b) + " to " + at(c, d); double w = angle(pt(a, b), pt(c, d)), g = kb::DistanceBetweenPoints(a, b, c, d); r.check(g >= 0, "geo:distance-value", ctx + " " + num(g)); double tol = w > 3.1 ? 2 : 1e-3; r.check(fabs(g - w * R) <= tol, "geo:distance", ctx + " " + num(g) + " want " + num(w * R)); double h = kb::DistanceBetweenPoints(c, d, a, b); r.check(fabs(g - h) <= tol, "geo:symmetry", ctx);
  double az = kb::AzimuthBetweenPoints(a, b, c, d); r.check(az >= -180 && az <= 180, "geo:azimuth-range", ctx + " " + num(az)); if (sin(w) > 1e-7) { P3 q = pt(c, d); double wa = atan2(dot(q, east(a, b)), dot(q, north(a, b))) * 180 / PI; double df = fabs(az - wa); if (df > 180) df = 360 - df; r.check(df < 1e-6, "geo:azimuth", ctx + " " + num(az) + " want " + num(wa));
    kb::Vec3 v = kb::LatLngOnRadialFromPoint(a, b, w * R, az); r.check(gap(pt(v.get_latitude(), v.get_longitude()), q) < 2e-7, "geo:back", ctx + " arrives at " + at(v.get_latitude(), v.get_longitude())); }
  static const double A[] = {0, 100, -3000}; double x = r.of(A), y = r.of(A); double g3 = kb::DistanceBetweenPoints3d(a, b, x, c, d, y); r.check(fabs(g3 - sqrt(w * R * w * R + (x - y) * (x - y))) <= tol, "geo:distance3d", ctx); double el = kb::ElevationBetweenPoints(a, b, x, c, d, y), we = atan2(y - x, w * R) * 180 / PI; if (w * R > 1e-3 || a == c && b == d) r.check(fabs(el - we) < 1e-5, "geo:elevation", ctx + " " + num(x) + ">" + num(y) + " " + num(el) + " want " + num(we)); r.state(num(floor(g)));
}
// Travelling from every grid point on every radial.
static void radials(Run& r) {
  static const double D[] = {0, 1, 1000, 1e6, 5e6, 1e7, R * PI / 2, 1.5e7, 2e7, R * PI}; static const double B[] = {0, 1, 45, 66, 90, 135, 179, 180, 225, 270, 359, 360, -90, -45, 450}; double a = r.of(LAT()), b = r.of(LNG()), d = r.of(D), t = r.of(B); r.nontrivial(); r.step(); string ctx = at(a, b) + " by " + num(d) + " on " + num(t); kb::Vec3 v = kb::LatLngOnRadialFromPoint(a, b, d, t); r.check(fabs(v.get_latitude()) <= 90.0000001 && fabs(v.get_longitude()) <= 540, "geo:radial-value", ctx + " " + at(v.get_latitude(), v.get_longitude())); r.check(!v.has_altitude(), "geo:radial-alt", ctx); P3 w = dest(a, b, d, t), g = pt(v.get_latitude(), v.get_longitude()); r.check(gap(w, g) < 1e-7, "geo:radial", ctx + " " + at(v.get_latitude(), v.get_longitude())); r.check(fabs(kb::DistanceBetweenPoints(a, b, v.get_latitude(), v.get_longitude()) - d) < (d > 1.9e7 ? 5 : 1), "geo:radial-distance", ctx);
}
static void units(Run& r) { static const double V[] = {0, 1, -1, 45, 90, 180, 360, -720, 1e-9, 12345.678, 2e7}; double v = r.of(V); r.nontrivial(); r.step(); auto near = [&](double a, double b, const char* s) { r.check(fabs(a - b) <= 1e-12 * (1 + fabs(b)), s, num(v) + " " + num(a) + " want " + num(b)); }; near(kb::DegToRad(v), v * PI / 180, "geo:rad"); near(kb::RadToDeg(kb::DegToRad(v)), v, "geo:deg"); near(kb::RadiansToMeters(kb::MetersToRadians(v)), v, "geo:meters"); near(kb::MetersToRadians(v), v / R, "geo:meters"); static const double E[] = {0, 2, 30, 45, 89, 90, 120, 180, -45, 270}; double e = r.of(E); auto nr = [&](double a, double b, const char* s) { r.check(fabs(a - b) <= 1e-9 * (1 + fabs(v)), s, num(v) + "," + num(e)); }; nr(kb::GroundDistanceFromRangeAndElevation(v, e), fabs(v * cos(rad(e))), "geo:ground"); nr(kb::HeightFromRangeAndElevation(v, e), fabs(v * sin(rad(e))), "geo:height"); }
// Circles: every point at the radius, evenly all the way round.
static void circles(Run& r) { static const double LA[] = {0, 37.5, -60, 89, 90, -90}; static const double LO[] = {0, -122, 179.99}; static const double D[] = {0, 100, 50000, 3e6}; static const int S[] = {0, 1, 2, 3, 4, 7, 36, 90, 360, 720}; double a = r.of(LA), b = r.of(LO), d = r.of(D); int n = r.of(S); r.nontrivial(); r.step(); kmldom::CoordinatesPtr c = kc::CreateCoordinatesCircle(a, b, d, n); string ctx = at(a, b) + " r=" + num(d) + " n=" + num(n); r.eq((size_t)n, c->get_coordinates_array_size(), "geo:circle-size", ctx); for (int i = 0; i < n; ++i) { kb::Vec3 v = c->get_coordinates_array_at(i); r.check(gap(pt(v.get_latitude(), v.get_longitude()), dest(a, b, d, 360.0 * i / n)) < 1e-7, "geo:circle", ctx + " point " + num(i) + " " + at(v.get_latitude(), v.get_longitude())); } }
// Simplification of every short sequence of points.
static void simplify(Run& r) {
  struct V { double lat, lng, alt; bool has; }; static const V M[] = {{0, 0, 0, true}, {0, 0, 0, false}, {0, 0.0005, 0, true}, {0, 0, 30, true}, {1, 1, 5, true}, {0.5, 0, 0, false}}; static const double T[] = {0, -1, 1, 40, 1000, 100000, 1e9}; int n = r.pick(thorough ? 6 : 5), pre = r.pick(2); double tol = r.of(T); kmldom::CoordinatesPtr s = kmldom::KmlFactory::GetFactory()->CreateCoordinates(), d = kmldom::KmlFactory::GetFactory()->CreateCoordinates(); string want, got, ctx; if (pre) { d->add_latlng(9, 9); want = "9,9 "; } auto show = [](double la, double lo, bool h, double al) { return num(la) + "," + num(lo) + (h ? "," + num(al) : "") + " "; }; V last = {0, 0, 0, false};
  for (int i = 0; i < n; ++i) { V v = r.of(M); if (v.has) s->add_latlngalt(v.lat, v.lng, v.alt); else s->add_latlng(v.lat, v.lng); ctx += show(v.lat, v.lng, v.has, v.alt); double g = angle(pt(v.lat, v.lng), pt(last.lat, last.lng)) * R, dist = sqrt(g * g + (v.alt - last.alt) * (v.alt - last.alt)); if (i == 0 || tol <= 0 || dist > tol) want += show(v.lat, v.lng, v.has, v.alt); last = v; }
  r.nontrivial(); r.step(); kc::SimplifyCoordinates(s, d, tol); for (size_t i = 0; i < d->get_coordinates_array_size(); ++i) { kb::Vec3 v = d->get_coordinates_array_at(i); got += show(v.get_latitude(), v.get_longitude(), v.has_altitude(), v.get_altitude()); } r.eq(want, got, "geo:simplify", "tolerance " + num(tol) + " " + ctx); r.eq((size_t)n, s->get_coordinates_array_size(), "geo:simplify-source", ctx); kc::SimplifyCoordinates(NULL, d, tol); kc::SimplifyCoordinates(s, NULL, tol); r.state(want);
}
static string n6(double d) { std::ostringstream o; o.precision(15); o << d; return o.str(); }
static string tag(const string& n, double d) { return "<" + n + ">" + n6(d) + "</" + n + ">"; }
static void tidy(Node* n) { if (n->name == "coordinates") { string o; for (char c : n->text) if (!isspace((unsigned char)c)) o += c; n->text = o; } for (auto& k : n->kid) tidy(&k); }
static string canon(const string& s) { Node n; if (!xn::read(s, &n)) return s; tidy(&n); return xn::write(n); }
// Constructors build exactly what their arguments say.
static void makers(Run& r) {
  static const double V[] = {0, 12.25, -7.5}; static const char* N[] = {"", "a b", "<&>"}; double a = r.of(V), b = r.of(V), c = r.of(V); int s = r.pick(3); string nm = N[s], en = s == 2 ? "<![CDATA[<&>]]>" : nm; static const char* AM[] = {"clampToGround", "relativeToGround", "absolute"}; int am = r.pick(3), kind = r.pick(13); string want, got; r.nontrivial(); r.step(); string xy = n6(b) + "," + n6(a), point = "<Point><coordinates>" + xy + ",0</coordinates></Point>";
  switch (kind) {
    case 0: want = "<Camera>" + tag("longitude", b) + tag("latitude", a) + tag("altitude", c) + tag("heading", a + 1) + tag("tilt", b + 2) + tag("roll", c + 3) + "<altitudeMode>" + AM[am] + "</altitudeMode></Camera>"; got = SerializeRaw(kc::CreateCamera(a, b, c, a + 1, b + 2, c + 3, am)); break;
    case 1: want = "<LookAt>" + tag("longitude", b) + tag("latitude", a) + tag("altitude", c) + tag("heading", a + 1) + tag("tilt", b + 2) + tag("range", c + 3) + "<altitudeMode>" + AM[am] + "</altitudeMode></LookAt>"; got = SerializeRaw(kc::CreateLookAt(a, b, c, a + 1, b + 2, c + 3, am)); break;
    case 2: want = point; got = SerializeRaw(kc::CreatePointLatLon(a, b)); break;
    case 3: want = "<Placemark><name>" + en + "</name>" + point + "</Placemark>"; got = SerializeRaw(kc::CreatePointPlacemark(nm, a, b)); break;
    case 4: want = "<Region><LatLonAltBox>" + tag("north", a) + tag("south", b) + tag("east", c) + tag("west", a + 1) + "</LatLonAltBox><Lod>" + tag("minLodPixels", b + 2) + tag("maxLodPixels", c + 3) + "</Lod></Region>"; got = SerializeRaw(kc::CreateRegion2d(a, b, c, a + 1, b + 2, c + 3)); break;
    case 5: want = "<gx:Wait>" + tag("gx:duration", a) + "</gx:Wait>"; got = SerializeRaw(kc::CreateWait(a)); break;
    case 6: { string attr = s == 2 ? "&lt;&amp;&gt;" : nm; want = "<Data name=\"" + attr + "\"><value>" + en + "</value></Data>"; got = SerializeRaw(kc::CreateDataNameValue(nm, nm)); break; }
    case 7: { kb::Vec3 v = am == 0 ? kb::Vec3(b, a) : kb::Vec3(b, a, c); want = "<Point><coordinates>" + xy + (am == 0 ? ",0" : "," + n6(c)) + "</coordinates></Point>"; got = SerializeRaw(kc::CreatePointFromVec3(v)); break; }
    case 8: { kb::Vec3 v = am == 0 ? kb::Vec3(b, a) : kb::Vec3(b, a, c); string attr = s == 2 ? "&lt;&amp;&gt;" : nm; want = "<gx:AnimatedUpdate>" + tag("gx:duration", c) + "<Update><targetHref></targetHref><Change><Placemark targetId=\"" + attr + "\"><Point><coordinates>" + xy + (am == 0 ? ",0" : "," + n6(c)) + "</coordinates></Point></Placemark></Change></Update></gx:AnimatedUpdate>"; got = SerializeRaw(kc::CreateAnimatedUpdateChangePoint(nm, v, c)); break; }
    case 9: { kmldom::KmlFactory* F = kmldom::KmlFactory::GetFactory(); kmldom::LinearRingPtr lr = F->CreateLinearRing(); lr->set_coordinates(kc::CreateCoordinatesCircle(a, b, 0, 1)); want = "<Placemark><Polygon><outerBoundaryIs>" + SerializeRaw(lr) + "</outerBoundaryIs></Polygon></Placemark>"; got = SerializeRaw(kc::CreateBasicPolygonPlacemark(lr)); break; }
    case 10: { std::unique_ptr<kb::DateTime> d(kb::DateTime::Create("2008-10-03T09:25:42Z")); string id = s == 2 ? "i" : nm; want = "<Placemark><name>09:25:42</name><TimeStamp><when>2008-10-03T09:25:42Z</when></TimeStamp><styleUrl>#" + id + "</styleUrl><ExtendedData><Data name=\"date\"><value>2008-10-03</value></Data><Data name=\"time\"><value>09:25:42</value></Data></ExtendedData>" + point + "</Placemark>"; got = SerializeRaw(kc::CreatePointPlacemarkWithTimeStamp(kc::CreatePointLatLon(a, b), *d, id.c_str())); break; }
    case 11: { kmldom::LookAtPtr l = kc::CreateLookAt(a, b, c, 1, 2, 3, am); kmldom::PlacemarkPtr p = kmldom::KmlFactory::GetFactory()->CreatePlacemark(); if (s == 1) p->set_abstractview(l); kmldom::GxFlyToPtr f = s == 1 ? kc::CreateFlyToForFeature(p, c) : kc::CreateFlyTo(l, c); want = "<gx:FlyTo>" + tag("gx:duration", c) + SerializeRaw(l) + "</gx:FlyTo>"; got = SerializeRaw(f); r.check(f->get_abstractview() != kmldom::AbstractViewPtr(l), "make:flyto-shares", ""); if (s == 1) r.check(p->has_abstractview(), "make:flyto-takes", ""); break; }
    default: { const char* ks[] = {"lat", "lon", "x", "lat2"}; vector<const char*> atts; string la = n6(a), lo = n6(b); bool hl = false, ho = false; int n = r.pick(4); for (int i = 0; i < n; ++i) { int k = r.pick(4); if (k == 0) { if (hl) r.prune(); hl = true; } if (k == 1) { if (ho) r.prune(); ho = true; } atts.push_back(ks[k]); atts.push_back(k == 0 ? la.c_str() : k == 1 ? lo.c_str() : "5"); } atts.push_back(NULL); kmldom::PointPtr p = kc::CreatePointFromLatLonAtts(&atts[0]); r.check((p != NULL) == (hl && ho), "make:atts", ""); want = hl && ho ? point : ""; got = p ? SerializeRaw(p) : ""; }
  }
  r.eq(canon(want), canon(got), "make:element", num(kind)); r.state(want);
}
// A view of a feature: centered on it, far enough for it.
static void views(Run& r) { static const double LA[] = {-60, -10, 0, 5, 70}; static const double LO[] = {-150, -20, 0, 0.001, 40, 120}; double a = r.of(LA), b = r.of(LO), c = r.of(LA), d = r.of(LO); bool line = r.flip(); kmldom::KmlFactory* F = kmldom::KmlFactory::GetFactory(); kmldom::PlacemarkPtr p = F->CreatePlacemark(); if (!line) { p->set_geometry(kc::CreatePointLatLon(a, b)); c = a; d = b; } else { kmldom::LineStringPtr l = F->CreateLineString(); kmldom::CoordinatesPtr k = F->CreateCoordinates(); k->add_latlng(a, b); k->add_latlng(c, d); l->set_coordinates(k); p->set_geometry(l); } r.nontrivial(); r.step(); kmldom::LookAtPtr v = kmlengine::ComputeFeatureLookAt(p); string ctx = at(a, b) + " " + at(c, d); r.check(v != NULL, "view:none", ctx); r.check(fabs(v->get_latitude() - (a + c) / 2) < 1e-9 && fabs(v->get_longitude() - (b + d) / 2) < 1e-9, "view:center", ctx); r.check(v->get_altitude() == 0 && v->get_heading() == 0 && v->get_tilt() == 0 && v->get_altitudemode() == kmldom::ALTITUDEMODE_RELATIVETOGROUND, "view:fields", ctx); double half = std::max(fabs(a - c) / 2 * PI / 180 * R, 0.0); double ew = angle(pt((a + c) / 2, (b + d) / 2), pt((a + c) / 2, std::min(b, d))) * R; r.check(v->get_range() >= 1000 && v->get_range() >= std::max(half, ew), "view:range", ctx + " " + num(v->get_range())); if (std::max(half, ew) < 100) r.eq(1000.0, v->get_range(), "view:min-range", ctx); kmldom::GxFlyToPtr f = kc::CreateFlyToForFeature(p, 2); r.check(f && SerializeRaw(f->get_abstractview()) == SerializeRaw(v), "view:flyto", ctx); r.check(!kmlengine::ComputeFeatureLookAt(F->CreatePlacemark()) && !kc::CreateFlyToForFeature(F->CreateFolder(), 1) && !kc::CreateFlyToForFeature(NULL, 1), "view:absent", ctx); }
// Name-value data of a feature: all histories.
static void values(Run& r) { kmldom::FolderPtr f = kmldom::KmlFactory::GetFactory()->CreateFolder(); vector<std::pair<string, string> > m; bool has = false; static const char* K[] = {"a", "b", ""}; int n = r.pick(thorough ? 6 : 5); for (int i = 0; i < n; ++i) { int op = r.pick(3); string k = r.of(K), v = "v" + num(i); r.step(); if (op == 0) { kc::AddExtendedDataValue(k, v, f); m.push_back({k, v}); has = true; } else if (op == 1) { kc::SetExtendedDataValue(k, v, f); m.assign(1, {k, v}); has = true; } else { kmldom::DataPtr d = kmldom::KmlFactory::GetFactory()->CreateData(); d->set_value("anon"); if (!f->has_extendeddata()) f->set_extendeddata(kmldom::KmlFactory::GetFactory()->CreateExtendedData()); f->get_extendeddata()->add_data(d); m.push_back({"?", "anon"}); has = true; } } r.nontrivial(); for (auto k : {"a", "b", "", "c"}) { string want = "before", got = "before"; for (auto& i : m) if (i.first == k) { want = i.second; break; } bool ok = kc::GetExtendedDataValue(f, k, &got); r.eq(want, got, "values:get", k); r.check(ok == (want != "before"), "values:found", k); r.check(!kc::GetExtendedDataValue(f, k, NULL), "values:null", k); } r.check(f->has_extendeddata() == has && (!has || f->get_extendeddata()->get_data_array_size() == m.size()), "values:count", ""); kc::AddExtendedDataValue("a", "b", NULL); kc::SetExtendedDataValue("a", "b", NULL); }
// Feeds.
static void feeds(Run& r) {
  kmldom::KmlFactory* F = kmldom::KmlFactory::GetFactory(); kmldom::AtomFeedPtr feed = F->CreateAtomFeed(); int n = r.pick(4); vector<string> want; vector<kmldom::AtomEntryPtr> es; string fself; static const char* REL[] = {"self", "http://x#self", "selfish", "next", ""}; int fr = r.pick(5); if (*REL[fr]) feed->add_link(kc::AtomUtil::CreateBasicLink("feedlink", REL[fr], "t/" + num(fr))); if (fr < 2) fself = "feedlink"; string titles;
  for (int i = 0; i < n; ++i) { int k = r.pick(5); kmldom::FeaturePtr p; string nm = "n" + num(i); if (k < 3) { p = k == 1 ? (kmldom::FeaturePtr)F->CreateFolder() : (kmldom::FeaturePtr)F->CreatePlacemark(); p->set_name(nm); if (k == 2) p->set_description("d"); } kmldom::AtomEntryPtr e = k < 3 ? kc::AtomUtil::CreateEntryForFeature(p) : kc::AtomUtil::CreateBasicEntry(nm, "s"); if (k == 4) e->set_content(F->CreateAtomContent()); string w; bool link = r.flip(); if (k < 3) { w = k == 1 ? "<Folder><name>" + nm + "</name>" : "<Placemark><name>" + nm + "</name>"; if (link) { w += "<atom:link href=\"e" + num(i) + "\"/>"; } if (k == 2) w += "<description>d</description>"; w += k == 1 ? "</Folder>" : "</Placemark>"; want.push_back(w); } if (link) { e->add_link(kc::AtomUtil::CreateBasicLink("zz", "edit", "t")); e->add_link(kc::AtomUtil::CreateBasicLink("e" + num(i), "x#self", "t")); } r.eq(k < 3 || true ? nm : "", e->get_title(), "feed:title", ""); r.eq(k == 2 ? "d" : k < 3 ? "" : "s", e->get_summary(), "feed:summary", ""); es.push_back(e); feed->add_entry(e); r.check(kc::AtomUtil::GetEntryFeature(e) == p, "feed:feature", ""); }
  r.nontrivial(); r.step(); string before = SerializeRaw(feed); for (int round = 0; round < 2; ++round) { kmldom::FolderPtr c = F->CreateFolder(); kc::AtomUtil::GetFeedFeatures(feed, c); r.eq(want.size(), c->get_feature_array_size(), "feed:count", before); for (size_t i = 0; i < want.size(); ++i) r.eq(want[i], SerializeRaw(c->get_feature_array_at(i)), "feed:clone", before); r.eq(before, SerializeRaw(feed), "feed:changed", before); }
  string href = "before"; r.eq(fr < 2, kc::AtomUtil::FindRelUrl(*feed, "self", &href), "feed:rel", ""); r.eq(fr < 2 ? "feedlink" : "before", href, "feed:rel", ""); r.eq(fr == 3, kc::AtomUtil::FindRelUrl(*feed, "next", NULL), "feed:rel", ""); r.check(!kc::AtomUtil::FindRelUrl(*feed, "", NULL), "feed:rel-empty", ""); for (int t = 0; t < 5; ++t) r.eq(fr < 2 && t == fr, kc::AtomUtil::FindLink(*feed, "self", "t/" + num(t)) != NULL, "feed:link", num(t)); for (int i = 0; i < 4; ++i) r.check(kc::AtomUtil::FindEntryByTitle(feed, "n" + num(i)) == (i < n ? es[i] : kmldom::AtomEntryPtr()), "feed:by-title", num(i)); r.check(!kc::AtomUtil::GetEntryFeature(NULL) && !kc::AtomUtil::CloneEntryFeature(NULL) && !kc::AtomUtil::CreateEntryForFeature(NULL), "feed:null", ""); kc::AtomUtil::GetFeedFeatures(NULL, NULL); }
static void atoms(Run& r) { kmldom::KmlFactory* F = kmldom::KmlFactory::GetFactory(); kmldom::AtomEntryPtr e = F->CreateAtomEntry(); int c = r.pick(3); if (c) { kmldom::AtomContentPtr k = F->CreateAtomContent(); if (c == 2) k->set_src("s"); e->set_content(k); } string s = "before"; r.nontrivial(); r.step(); r.eq(c == 2, kc::AtomUtil::GetContentSrc(e, &s), "atom:src", ""); r.eq(c == 2 ? "s" : "before", s, "atom:src", ""); r.check(kc::AtomUtil::GetContentSrc(e, NULL) == (c == 2) && !kc::AtomUtil::GetContentSrc(NULL, &s), "atom:src", ""); static const char* S[] = {"http://x#kind", "kind", "kindly", "http://y#other", ""}; int n = r.pick(4), first = -1; vector<kmldom::AtomCategoryPtr> cs; for (int i = 0; i < n; ++i) { int k = r.pick(5); kmldom::AtomCategoryPtr q = F->CreateAtomCategory(); if (*S[k]) q->set_scheme(S[k]); e->add_category(q); cs.push_back(q); if (k < 2 && first < 0) first = i; } r.check(kc::AtomUtil::FindCategoryByScheme(*e, "kind") == (first < 0 ? kmldom::AtomCategoryPtr() : cs[first]), "atom:category", ""); }
// GPX tracks.
class G : public kc::GpxTrkPtHandler { public: string o; virtual void HandlePoint(const kb::Vec3& w, const string& t) { o += num(w.get_longitude()) + "," + num(w.get_latitude()) + (w.has_altitude() ? "," + num(w.get_altitude()) : "") + "@" + t + " "; } };
static void tracks(Run& r) { int n = r.pick(thorough ? 5 : 4); Node g("gpx"), t("trk"), s("trkseg"); string want; for (int i = 0; i < n; ++i) { int k = r.pick(5); Node p(k == 4 ? "wpt" : "trkpt"); bool la = k != 1 && k != 3, lo = k != 2 && k != 3; if (la) p.a("lat", num(i + 0.5)); if (lo) p.a("lon", num(-i - 10.25)); int el = r.pick(3), tm = r.pick(2); Node e("ele", num(100 + i)), w("time", "T" + num(i)); if (el == 1) p.add(e); if (tm) p.add(w); if (el == 2) p.add(e); if (i == 1) { Node x("extensions"); x.add(Node("speed", "9")); p.add(x); } s.add(p); if (k == 0) want += num(-i - 10.25) + "," + num(i + 0.5) + (el ? "," + num(100 + i) : "") + "@" + (tm ? "T" + num(i) : "") + " "; } t.add(Node("name", "x")); t.add(s); g.add(Node("time", "M")); g.add(t); string d = xn::write(g), err; G h; r.nontrivial(); r.step(); r.check(kb::ExpatParser::ParseString(d, &h, &err, false), "gpx:parse", d); r.eq(want, h.o, "gpx:points", d); r.state(want); }
// Counting elements.
static void tally(const Node& n, std::map<string, int>* m) { ++(*m)[n.name]; for (auto& k : n.kid) if (k.name != "X") tally(k, m); }
static void counts(Run& r) { static const char* C[] = {"Placemark", "Folder", "Point", "name", "styleUrl", "X", "coordinates"}; int n = r.pick(thorough ? 6 : 5); vector<Node> st(1, Node("Document")); for (int i = 0; i < n; ++i) { Node k(C[r.pick(7)]); int up = r.pick((int)st.size()); while ((int)st.size() > up + 1) { Node d = st.back(); st.pop_back(); st.back().add(d); } if (k.name[0] > 'Z') st.back().add(k); else st.push_back(k); } while (st.size() > 1) { Node d = st.back(); st.pop_back(); st.back().add(d); } std::map<string, int> want; tally(st[0], &want); kc::ElementCountMap got; kc::ElementCounter oc(&got); kmldom::Parser p; p.AddObserver(&oc); string d = xn::write(st[0]); r.nontrivial(); r.step(); r.check(p.Parse(d, NULL) != NULL, "count:parse", d); string a, b; for (auto& i : want) a += i.first + "=" + num(i.second) + " "; std::map<string, int> named; for (auto& i : got) named[kmldom::Xsd::GetSchema()->ElementName(i.first)] = i.second; for (auto& i : named) b += i.first + "=" + num(i.second) + " "; want.erase("X"); a.clear(); for (auto& i : want) a += i.first + "=" + num(i.second) + " "; r.eq(a, b, "count:elements", d); }
void mc_setup() {
  rule("every pair of grid points (13x14, thorough 26x28) with altitudes, every departure, distance and radial, all circles, coordinate sequences, constructor arguments, data histories, feeds and tracks up to the bound; judged by vector geometry and independently written elements");
  assume("distances near the antipode are judged to 2 m, elsewhere to 1 mm; longitudes are judged modulo 360"); add("pairs", pairs); add("radials", radials); add("units", units); add("circles", circles); add("simplify", simplify); add("makers", makers); add("views", views); add("values", values); add("feeds", feeds); add("atoms", atoms); add("tracks", tracks); add("counts", counts);
}
