// P07: coordinate text.
#include "domgen.h"
#include "kml/base/vec3.h"
using namespace mc; using std::string; using std::vector; using kmlbase::Vec3;

struct T { double v[3]; int n; };
static const char* NUM[] = {"0", "1.5", "-2", "-179.123456789", ".5", "-.25", "1e2", "-1.25E-3", "+4", "12.", "007", "1e+1"};
static const char* WS[] = {" ", "\n", "\t", "\r", "  ", "\n\t "};
static const char* OWS[] = {"", " ", "\n", "\t "};

static string show(const vector<T>& t) { string o; for (auto& x : t) { o += "("; for (int i = 0; i < x.n; ++i) o += num(x.v[i]) + (i + 1 < x.n ? "," : ""); o += ")"; } return o; }
static string show(const kmldom::CoordinatesPtr& c) { string o; for (size_t i = 0; i < c->get_coordinates_array_size(); ++i) { Vec3 v = c->get_coordinates_array_at(i);
  o += "(" + num(v.get_longitude()) + "," + num(v.get_latitude()) + (v.has_altitude() ? "," + num(v.get_altitude()) : "") + ")"; if (!v.has_altitude() && v.get_altitude() != 0) o += "ALT"; } return o; }
static kmldom::CoordinatesPtr via_parser(Run& r, const string& s, const char* parent) {
  string err; kmldom::ElementPtr e = kmldom::Parse("<" + string(parent) + "><coordinates>" + s + "</coordinates></" + parent + ">", &err); r.step();
  r.check(e.get() != NULL, "coord:parse", err);
  string p = parent;
  if (p == "Point") return kmldom::AsPoint(e)->get_coordinates();
  if (p == "LineString") return kmldom::AsLineString(e)->get_coordinates();
  if (p == "LinearRing") return kmldom::AsLinearRing(e)->get_coordinates();
  return kmldom::AsGxLatLonQuad(e)->get_coordinates();
}
static void expect(Run& r, const string& s, const vector<T>& t) {
  r.say(s); r.nontrivial(); string w = show(t);
  kmldom::CoordinatesPtr c = kmldom::KmlFactory::GetFactory()->CreateCoordinates(); c->Parse(s); r.step();
  r.eq(w, show(c), "coord:tuples", "\"" + esc(s) + "\"");
  kmldom::CoordinatesPtr p = via_parser(r, s, "LineString"); r.check(p.get() != NULL, "coord:none", s);
  r.eq(w, show(p), "coord:document", esc(s));
  const char* next = s.c_str(); char* np; vector<Vec3> vs; Vec3 v;
  for (size_t k = 0; k <= t.size() + 1; ++k) { if (!kmldom::Coordinates::ParseVec3(next, &np, &v)) break; vs.push_back(v); r.check(np > next && np <= s.c_str() + s.size(), "coord:next", s); next = np; r.step(); }
  r.eq(t.size(), vs.size(), "coord:vec3-count", esc(s));
  for (int pretty = 0; pretty < 2; ++pretty) {
    string o = pretty ? kmldom::SerializePretty(p) : kmldom::SerializeRaw(p); kmldom::CoordinatesPtr q = kmldom::AsCoordinates(kmldom::Parse(o, NULL)); r.step();
    r.check(q.get() != NULL, "coord:rewrite", o); bool same = q->get_coordinates_array_size() == t.size();
    for (size_t i = 0; same && i < t.size(); ++i) { Vec3 x = q->get_coordinates_array_at(i); same = dg::near(x.get_longitude(), t[i].v[0]) && dg::near(x.get_latitude(), t[i].v[1]) && dg::near(x.get_altitude(), t[i].n > 2 ? t[i].v[2] : 0); }
    r.check(same, "coord:written-differs", esc(o) + " from " + esc(s));
  }
}
static T tuple(const vector<string>& n) { T t; t.n = n.size(); for (int i = 0; i < t.n; ++i) t.v[i] = strtod(n[i].c_str(), NULL); return t; }
// One tuple: all spellings of numbers and of white space around commas.
static void one(Run& r) {
  int n = 2 + r.pick(2); vector<string> v; string s = r.of(OWS);
  for (int i = 0; i < n; ++i) { if (i) { s += r.of(OWS); s += ","; s += r.of(OWS); } v.push_back(n == 2 || thorough ? NUM[r.pick(12)] : NUM[(r.pick(4) * 5 + i) % 12]); s += v.back(); }
  if (n == 2) s += r.of(OWS);
  expect(r, s, {tuple(v)});
}
// Tuples of either arity with all separators.
static void many(Run& r, int k) {
  string s = r.of(OWS); vector<T> t;
  for (int i = 0; i < k; ++i) {
    if (i) s += r.of(WS);
    int n = 2 + r.pick(2), style = r.pick(3); vector<string> v;
    for (int j = 0; j < n; ++j) { if (j) s += style == 0 ? "," : style == 1 ? ", " : " ,"; v.push_back(NUM[(i * 3 + j * 5 + style) % 12]); s += v.back(); }
    t.push_back(tuple(v));
  }
  s += r.of(OWS); expect(r, s, t);
}
static void big(Run& r) {
  int k = r.pick(5); string s; vector<T> t;
  if (k < 3) { string d(k == 0 ? 1023 : k == 1 ? 1024 : 5000, '1'); vector<string> v = {"0." + d, "-0." + d, "3." + d}; int at = r.pick(3); for (int i = 0; i < 3; ++i) if (i != at) v[i] = "7"; s = v[0] + "," + v[1] + "," + v[2]; t.push_back(tuple(v)); }
  else for (int i = 0; i < 3000; ++i) { vector<string> v = {str(i % 180) + ".25", "-" + str(i % 90)}; if (k == 4) v.push_back(str(i)); s += v[0] + "," + v[1] + (k == 4 ? "," + v[2] : "") + (i % 2 ? "\n" : " "); t.push_back(tuple(v)); }
  expect(r, s, t);
}
// All short strings: terminates, in bounds, every value is one written there.
static const string ALPHA = "1.-+, \neEx,";
static void literals(const string& s, vector<double>* out) {  // every decimal literal substring
  out->push_back(0);
  for (size_t i = 0; i < s.size(); ++i) { if (s[i] == 'x' || s[i] == ' ' || s[i] == '\n' || s[i] == ',') continue;
    for (size_t l = 1; i + l <= s.size(); ++l) { string u = s.substr(i, l); if (u.find_first_of("x ,\n") != string::npos) break; char* e; double d = strtod(u.c_str(), &e); if (*e == 0 && e != u.c_str()) { out->push_back(d); if (d > 1.7e308) out->push_back(1.7976931348623157e308); if (d < -1.7e308) out->push_back(-1.7976931348623157e308); } } }
}
static void any(Run& r, int n) {
  string s; for (int i = 0; i < n; ++i) s += ALPHA[r.pick(10)];
  r.nontrivial(); r.step();
  kmldom::CoordinatesPtr c = kmldom::KmlFactory::GetFactory()->CreateCoordinates(); c->Parse(s);
  vector<double> lit; literals(s, &lit); size_t digits = 0; for (char ch : s) digits += ch == '1';
  size_t k = c->get_coordinates_array_size(); r.check(k <= digits, "coord:invented-tuple", esc(s) + " -> " + show(c));
  r.check(digits == 0 || k > 0, "coord:number-ignored", esc(s));
  for (size_t i = 0; i < k; ++i) { Vec3 v = c->get_coordinates_array_at(i); double x[3] = {v.get_longitude(), v.get_latitude(), v.get_altitude()};
    for (double d : x) { bool in = false; for (double l : lit) in |= l == d; r.check(in, "coord:invented-value", num(d) + " from " + esc(s)); } }
}
// Exact strings that do conform: decided by an independent regular matcher.
static bool conform(const string& s, vector<T>* t) {
  size_t i = 0; auto ws = [&](size_t p) { while (p < s.size() && (s[p] == ' ' || s[p] == '\n')) ++p; return p; };
  auto numb = [&](size_t p, string* o) -> size_t { size_t b = p; if (p < s.size() && (s[p] == '-' || s[p] == '+')) ++p; size_t d = 0; while (p < s.size() && s[p] == '1') ++p, ++d;
    if (p < s.size() && s[p] == '.') { ++p; while (p < s.size() && s[p] == '1') ++p, ++d; if (!d) return 0; } if (!d) return 0;
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { size_t q = p + 1; if (q < s.size() && (s[q] == '-' || s[q] == '+')) ++q; size_t z = q; while (q < s.size() && s[q] == '1') ++q; if (q == z) return 0; p = q; }
    *o = s.substr(b, p - b); return p; };
  i = ws(0);
  while (i < s.size()) {
    vector<string> v; string o; size_t p = numb(i, &o); if (!p) return false; v.push_back(o);
    for (int k = 0; k < 2; ++k) { size_t q = ws(p); if (q < s.size() && s[q] == ',') { q = ws(q + 1); size_t z = numb(q, &o); if (!z) return false; v.push_back(o); p = z; } else if (k == 0) return false; }
    t->push_back(tuple(v)); size_t q = ws(p); if (q == p && q < s.size()) return false; i = q;
    if (i < s.size() && s[i] == ',') return false;
  }
  return true;
}
static void grammar(Run& r, int n) {
  string s; for (int i = 0; i < n; ++i) s += ALPHA[r.pick(9)];
  vector<T> t; if (!conform(s, &t)) r.prune();
  r.nontrivial(); r.step(); r.say(esc(s));
  kmldom::CoordinatesPtr c = kmldom::KmlFactory::GetFactory()->CreateCoordinates(); c->Parse(s); r.eq(show(t), show(c), "coord:tuples", "\"" + esc(s) + "\"");
}
// Parse() of a list element built twice, and API-made lists written and read.
static void api(Run& r) {
  kmldom::KmlFactory* f = kmldom::KmlFactory::GetFactory(); kmldom::CoordinatesPtr c = f->CreateCoordinates(); int n = r.pick(4); vector<T> t; r.nontrivial();
  static const double D[] = {0, -0.5, 179.999999999999, 1e-7, -89.123456789012};
  for (int i = 0; i < n; ++i) { T x; x.n = 3; for (int j = 0; j < 3; ++j) x.v[j] = D[(r.pick(2) * 2 + i + j) % 5];
    int how = r.pick(3); r.step(); if (how == 0) { c->add_latlng(x.v[1], x.v[0]); x.n = 2; x.v[2] = 0; } else if (how == 1) c->add_latlngalt(x.v[1], x.v[0], x.v[2]); else c->add_vec3(Vec3(x.v[0], x.v[1], x.v[2])); t.push_back(x); }
  r.eq(show(t), show(c), "coord:api");
  string g = r.of(std::vector<string>{"Point", "LineString", "LinearRing", "gx:LatLonQuad"}); string o = kmldom::SerializeRaw(c); size_t a = o.find('>') + 1, b = o.rfind('<');
  string body = n ? o.substr(a, b - a) : ""; kmldom::CoordinatesPtr p = via_parser(r, body, g.c_str()); r.check(p.get() != NULL, "coord:lost", g);
  r.eq((size_t)n, p->get_coordinates_array_size(), "coord:api-count", body);
  for (int i = 0; i < n; ++i) { Vec3 v = p->get_coordinates_array_at(i); r.check(dg::near(v.get_longitude(), t[i].v[0]) && dg::near(v.get_latitude(), t[i].v[1]) && dg::near(v.get_altitude(), t[i].v[2]), "coord:api-value", body); }
  c->Clear(); r.eq((size_t)0, c->get_coordinates_array_size(), "coord:clear");
}
// gx:coord and gx:angles: white space separated.
static void track(Run& r) {
  bool ang = r.flip(); int n = 1 + r.pick(3); string x; vector<T> t; 
  for (int i = 0; i < n; ++i) { vector<string> v; string s = n == 1 ? r.of(OWS) : ""; int k = n == 1 ? 2 + r.pick(2) : 3; for (int j = 0; j < k; ++j) { if (j) s += n == 1 ? r.of(WS) : WS[r.pick(2) * 2]; v.push_back(NUM[n != 1 ? (i * 5 + j * 2) % 12 : thorough ? r.pick(12) : (r.pick(3) * 5 + j) % 12]); s += v.back(); }
    if (n == 1) s += r.of(OWS); t.push_back(tuple(v)); x += string("<gx:") + (ang ? "angles" : "coord") + ">" + s + "</gx:" + (ang ? "angles" : "coord") + ">"; }
  r.say(x); r.nontrivial(); r.step(); string err; kmldom::GxTrackPtr g = kmldom::AsGxTrack(kmldom::Parse("<gx:Track>" + x + "</gx:Track>", &err)); r.check(g.get() != NULL, "coord:track", err);
  r.eq((size_t)n, ang ? g->get_gx_angles_array_size() : g->get_gx_coord_array_size(), "coord:track-count", esc(x));
  for (int i = 0; i < n; ++i) { Vec3 v = ang ? g->get_gx_angles_array_at(i) : g->get_gx_coord_array_at(i);
    r.check(v.get_longitude() == t[i].v[0] && v.get_latitude() == t[i].v[1] && v.get_altitude() == (t[i].n > 2 ? t[i].v[2] : 0) && v.has_altitude() == (t[i].n > 2), "coord:track-value", esc(x)); }
}
static void track_any(Run& r, int n) { string s; for (int i = 0; i < n; ++i) s += "1.-, \nex"[r.pick(8)]; r.nontrivial(); r.step();
  kmldom::GxTrackPtr g = kmldom::AsGxTrack(kmldom::Parse("<gx:Track><gx:coord>" + s + "</gx:coord></gx:Track>", NULL)); r.check(g && g->get_gx_coord_array_size() == 1, "coord:track-any", esc(s));
  vector<double> lit; literals(s, &lit); Vec3 v = g->get_gx_coord_array_at(0); for (double d : {v.get_longitude(), v.get_latitude(), v.get_altitude()}) { bool in = false; for (double l : lit) in |= l == d; r.check(in, "coord:track-invented", num(d) + " from " + esc(s)); } }
void mc_setup() {
  rule("all spellings of one tuple (numbers, white space around commas), all lists of up to three tuples of either arity with every separator, every string up to the length over {1 . - + , space newline e E x}: those that conform must give exactly their tuples, all others must terminate and yield only values written in them; lists of 3000 tuples and numbers of 5000 digits; gx:coord and gx:angles likewise");
  assume("strtod gives the value of a decimal literal"); cpu_limit(20);
  add("one", one, BOTH, 3); add("many2", [](Run& r) { many(r, 2); }); add("many3", [](Run& r) { many(r, 3); }, BOTH, 4); add("many4", [](Run& r) { many(r, 4); }, THOROUGH, 4);
  add("big", big); add("api", api, BOTH, 3); add("track", track, BOTH, 3);
  for (int n = 0; n <= 6; ++n) { int t = n < 7 ? BOTH : THOROUGH; add("any" + str(n), [n](Run& r) { any(r, n); }, t, n < 2 ? n : 2); }
  for (int n = 3; n <= 7; ++n) { int t = n < 7 ? BOTH : THOROUGH; add("grammar" + str(n), [n](Run& r) { grammar(r, n); }, t, 2); }
  add("track_any4", [](Run& r) { track_any(r, 4); }); add("track_any5", [](Run& r) { track_any(r, 5); }, THOROUGH);
}
