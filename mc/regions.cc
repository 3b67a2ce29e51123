// P25: regionation, judged from the files written.
#include "core.h"
#include "kml/base/file.h"
#include <math.h>
#include <strings.h>
#include "xmlnode.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/kml_feature_list_saver.h"
#include "kml/regionator/regionator.h"
#include "kml/regionator/regionator_util.h"
#include "kml/regionator/feature_list_regionator.h"
#include "kml/regionator/feature_list_region_handler.h"
#include <dirent.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc; using std::string; using std::vector; using std::map; using xn::Node; using kmlconvenience::FeatureList;
static kmldom::KmlFactory* F() { return kmldom::KmlFactory::GetFactory(); }
struct Box { double n, s, e, w; bool has(double la, double lo) const { return la <= n && la >= s && lo <= e && lo >= w; } bool operator==(const Box& o) const { return n == o.n && s == o.s && e == o.e && w == o.w; } Box quad(int q) const { double m = (n + s) / 2, o = (e + w) / 2; switch (q) { case 0: return {n, m, o, w}; case 1: return {n, m, e, o}; case 2: return {m, s, o, w}; default: return {m, s, e, o}; } } };
static string bt(const Box& b) { return num(b.n) + "," + num(b.s) + "," + num(b.e) + "," + num(b.w); }
static double dbl(const Node& n, const char* c) { const Node* k = n.child(c); return k ? strtod(k->text.c_str(), NULL) : NAN; }
static bool regionOf(Run& r, const Node& n, Box* b, string* id) { const Node* g = n.child("Region"); if (!g || !g->child("LatLonAltBox")) return false; const Node& l = *g->child("LatLonAltBox"); *b = {dbl(l, "north"), dbl(l, "south"), dbl(l, "east"), dbl(l, "west")}; *id = g->attr.count("id") ? g->attr.at("id") : ""; return true; }
static bool close(double a, double b) { return a == b || fabs(a - b) <= 1e-13 * std::max(fabs(a), fabs(b)); }
static bool close(const Box& a, const Box& b) { return close(a.n, b.n) && close(a.s, b.s) && close(a.e, b.e) && close(a.w, b.w); }
struct File { Node doc; Box box; string id; vector<string> links; vector<string> items; };
typedef map<string, File> Files;
static Files readDir(Run& r, const string& d) { Files fs; DIR* h = opendir(d.c_str()); while (dirent* e = readdir(h)) { string n = e->d_name; if (n == "." || n == "..") continue; std::ifstream in((d + "/" + n).c_str()); std::stringstream ss; ss << in.rdbuf(); Node k; r.check(xn::read(ss.str(), &k) && k.name == "kml" && k.child("Document"), "region:file", n + ": " + ss.str()); File f; f.doc = *k.child("Document"); fs[n] = f; } closedir(h); return fs; }
static void fresh(const string& d) { mkdir(d.c_str(), 0700); DIR* h = opendir(d.c_str()); if (!h) return; while (dirent* e = readdir(h)) if (e->d_name[0] != '.') ::unlink((d + "/" + e->d_name).c_str()); closedir(h); }
// Every file reachable from root exactly once, regions the quadrants of the parents'.
static void judgeTree(Run& r, Files& fs, const string& root, const string& what, bool exact) {
  if (fs.empty()) return; r.check(fs.count(root), "region:no-root", what); vector<string> todo(1, root); std::set<string> seen; seen.insert(root); for (auto& f : fs) r.check(regionOf(r, f.second.doc, &f.second.box, &f.second.id), "region:no-region", what + " " + f.first);
  while (!todo.empty()) { string n = todo.back(); todo.pop_back(); File& f = fs[n]; const Node* nm = f.doc.child("name"); r.check(nm && nm->text == f.id, "region:name", what + " " + n); const Node* al = f.doc.child("atom:link"); r.check(al && al->attr.count("href") && al->attr.at("href") == root && al->attr.count("rel") && al->attr.at("rel") == (n == root ? "self" : "up"), "region:atom-link", what + " " + n); std::set<int> qs; int folders = 0;
    for (auto& k : f.doc.kid) if (k.name == "NetworkLink") { const Node* l = k.child("Link"); r.check(l && l->child("href"), "region:link", what + " " + n); string h = l->child("href")->text; r.check(fs.count(h), "region:dangling-link", what + " " + n + " links " + h); r.check(seen.insert(h).second, "region:linked-twice", what + " " + h); r.check(l->child("viewRefreshMode") && l->child("viewRefreshMode")->text == "onRegion", "region:refresh", what); Box b; string id; r.check(regionOf(r, k, &b, &id), "region:link-region", what + " " + n); File& c = fs[h]; r.check(b == c.box && id == c.id, "region:link-region", what + " " + n + " links " + h + " " + bt(b) + " vs " + bt(c.box)); int q = -1; for (int i = 0; i < 4; ++i) if (close(f.box.quad(i), b)) q = i; r.check(q >= 0 && qs.insert(q).second, "region:not-quadrant", what + " " + bt(f.box) + " links " + bt(b)); r.check(c.id == f.id + num(q), "region:id", what + " " + c.id); todo.push_back(h); f.links.push_back(h); }
      else if (k.name == "Folder") { ++folders; for (auto& p : k.kid) if (p.name == "Placemark") f.items.push_back(p.child("name") ? p.child("name")->text : ""); } }
  for (auto& f : fs) r.check(seen.count(f.first), "region:unreachable", what + " " + f.first);
}
struct Item { double la, lo; int score; bool loc, line; };
static const vector<std::pair<double, double>>& GRID() { static const vector<std::pair<double, double>> g = {{0, 0}, {10, 20}, {10, 20.5}, {-80, 170}, {45, -90}, {89.5, -180}, {-10, 20}}; return g; }
static kmldom::FeaturePtr make(const Item& it, int i) { kmldom::PlacemarkPtr p = F()->CreatePlacemark(); p->set_name("f" + num(i)); if (it.loc) { if (it.line) { kmldom::CoordinatesPtr c = F()->CreateCoordinates(); c->add_latlng(it.la - 0.25, it.lo - 0); c->add_latlng(it.la + 0.25, it.lo + 0); kmldom::LineStringPtr l = F()->CreateLineString(); l->set_coordinates(c); p->set_geometry(l); } else p->set_geometry(kmlconvenience::CreatePointLatLon(it.la, it.lo)); } if (it.score != 0 || i % 2) kmlconvenience::SetFeatureScore(num(it.score), p); return p; }
struct Mon { int calls = 0; unsigned last = 0, total = 0; bool RegionatorProgress(unsigned c, unsigned t) { ++calls; last = c; total = t; return true; } };
static void regionate(Run& r, const vector<Item>& v, int max, const string& what) {
  int n = v.size();
  string out = r.flip() || n != 2 ? "out" : ""; string dir = out.empty() ? "cwd" : "out"; fresh(dir); FeatureList fl; for (int i = 0; i < n; ++i) fl.PushBack(make(v[i], i)); Mon mon; r.nontrivial(); r.step(); r.say(what); bool ok; if (out.empty()) { if (chdir("cwd")) return; ok = kmlregionator::FeatureListRegionator<Mon>::Regionate(&fl, max, &mon, NULL); if (chdir("..")) return; } else ok = kmlregionator::FeatureListRegionator<Mon>::Regionate(&fl, max, n % 2 ? &mon : NULL, "out"); r.check(ok, "region:result", what); Files fs = readDir(r, dir); judgeTree(r, fs, "1.kml", what, true);
  int located = 0; for (auto& x : v) located += x.loc; r.check(fs.empty() == (located == 0), "region:empty", what); std::map<string, string> where; size_t cap = max ? max : n; for (auto& f : fs) { r.check(!f.second.items.empty() && f.second.items.size() <= cap, "region:count", what + " " + f.first); for (auto& i : f.second.items) { r.check(where.insert({i, f.first}).second, "region:twice", what + " " + i); } }
  for (int i = 0; i < n; ++i) { bool in = where.count("f" + num(i)); r.check(in == v[i].loc, "region:lost", what + " f" + num(i)); if (in) { const File& f = fs[where["f" + num(i)]]; r.check(f.box.has(v[i].la, v[i].lo), "region:outside", what + " f" + num(i) + " in " + bt(f.box)); } }
  // Scores: along every path no deeper feature outranks a shallower one, and a file with files below it is full.
  for (auto& f : fs) for (auto& g : fs) if (f.first != g.first && g.second.id.compare(0, f.second.id.size(), f.second.id) == 0) { r.check(f.second.items.size() == cap, "region:not-full", what + " " + f.first); for (auto& a : f.second.items) for (auto& b : g.second.items) r.check(v[atoi(a.c_str() + 1)].score >= v[atoi(b.c_str() + 1)].score, "region:score", what + " " + a + " above " + b); }
  for (auto& f : fs) for (size_t k = 1; k < f.second.items.size(); ++k) { int a = atoi(f.second.items[k - 1].c_str() + 1), b = atoi(f.second.items[k].c_str() + 1); r.check(v[a].score > v[b].score || (v[a].score == v[b].score && a < b), "region:item-order", what); }
  if (!fs.empty()) { const Node* lk = fs["1.kml"].doc.child("LookAt"); double nn = -999, ss = 999, ee = -999, ww = 999; for (auto& x : v) if (x.loc) { double d = x.line ? 0.25 : 0; nn = std::max(nn, x.la + d); ss = std::min(ss, x.la - d); ee = std::max(ee, x.lo); ww = std::min(ww, x.lo); } r.check(lk && close(dbl(*lk, "latitude"), (nn + ss) / 2) && close(dbl(*lk, "longitude"), (ee + ww) / 2), "region:lookat", what); for (auto& f : fs) if (f.first != "1.kml") r.check(!f.second.doc.child("LookAt"), "region:lookat-below", what); const Box& b = fs["1.kml"].box; r.check(b.n >= nn && b.s <= ss && b.e >= ee && b.w <= ww, "region:root-box", what + " " + bt(b)); if (n % 2 || out.empty()) r.check(mon.calls == (int)fs.size() && (int)mon.last == located && mon.total == (unsigned)n, "region:progress", what + " " + num(mon.last)); }
  r.state(num((int)fs.size()) + what.substr(what.find("max")));
}
static void featureLists(Run& r) {
  int n = r.pick(thorough ? 6 : 5); vector<Item> v; string what; int pat = r.pick(4); for (int i = 0; i < n; ++i) { const auto& g = GRID()[n > 4 ? r.of({0, 1, 2, 4}) : r.pick(GRID().size())]; int s = pat == 0 ? 0 : pat == 1 ? i + 1 : pat == 2 ? -i * 10 : (i * 7) % 3 - 1; v.push_back({g.first, g.second, s, true, false}); what += num(g.first) + "," + num(g.second) + "=" + num(s) + " "; } int max = r.pick(3); int variant = n <= 2 ? r.pick(3) : 0; if (variant == 1 && n) v[0].line = true; if (variant == 2 && n) v[0].loc = false; what += "max " + num(max) + " variant " + num(variant); regionate(r, v, max, what);
}
// A handler answering every question both ways.
class H : public kmlregionator::RegionHandler { public: Run& r; int depth; map<string, kmldom::RegionPtr> asked; map<string, bool> has, feat; vector<string> order; Files files; string log; H(Run& x, int d) : r(x), depth(d) {} bool HasData(const kmldom::RegionPtr& g) { string id = g->get_id(); r.check(!has.count(id), "region:asked-twice", id); bool h = (int)id.size() - 2 <= depth && r.flip(); has[id] = h; asked[id] = g; log += "?" + id; return h; } kmldom::FeaturePtr GetFeature(const kmldom::RegionPtr& g) { string id = g->get_id(); r.check(has[id], "region:feature-without-data", id); r.check(!feat.count(id), "region:feature-twice", id); for (int q = 0; q < 4; ++q) r.check(has.count(id + num(q)), "region:feature-before-children", id); bool f = r.flip(); feat[id] = f; if (!f) return NULL; kmldom::FolderPtr d = F()->CreateFolder(); kmldom::PlacemarkPtr p = F()->CreatePlacemark(); p->set_name(id); d->add_feature(p); return d; } void SaveKml(const kmldom::KmlPtr& k, const string& n) { r.check(!files.count(n), "region:saved-twice", n); Node x; r.check(xn::read(kmldom::SerializeRaw(k), &x) && x.child("Document"), "region:file", n); File f; f.doc = *x.child("Document"); files[n] = f; } };
static void handlers(Run& r) {
  int root = r.pick(3); H h(r, thorough ? 2 : 1); kmldom::RegionPtr g = root == 2 ? kmlconvenience::CreateRegion2d(40, -20, 170, 10, 128, -1) : kmlconvenience::CreateRegion2d(16, 0, 32, 0, 64, 512); g->set_id("mine"); kmlregionator::Regionator rt(h, g); string rootname = "1.kml"; if (root == 1) { rt.SetRootFilename("top.kml"); rootname = "top.kml"; } if (root == 2) rt.SetNaturalRegion(g); r.nontrivial(); r.step(); r.check(rt.Regionate(root == 1 ? "dir" : NULL), "region:result", ""); r.eq("mine", g->get_id(), "region:input-changed", "");
  string what = h.log; Files fs; for (auto& f : h.files) { string n = f.first; if (root == 1) { r.check(n.compare(0, 4, "dir/") == 0, "region:dir", n); n.erase(0, 4); } fs[n] = f.second; }
  // Expected: a region is written iff it has a feature, or a region below it was written.
  std::function<bool(const string&)> written = [&](const string& id) { if (!h.has.count(id) || !h.has[id]) return false; bool w = h.feat[id]; for (int q = 0; q < 4; ++q) w = written(id + num(q)) || w; return w; }; std::set<string> want; for (auto& x : h.has) if (written(x.first)) want.insert(x.first); judgeTree(r, fs, rootname, what, true); std::set<string> got; for (auto& f : fs) { got.insert(f.second.id); bool it = !f.second.items.empty(); r.check(it == h.feat[f.second.id], "region:feature-lost", what + " " + f.second.id); if (it) r.eq(f.second.id, f.second.items[0], "region:feature-wrong", what); } string a, b; for (auto& x : want) a += x + " "; for (auto& x : got) b += x + " "; r.eq(a, b, "region:written", what); for (auto& x : h.asked) { Box bx = root == 2 ? Box{40, -20, 170, 10} : Box{16, 0, 32, 0}; for (size_t i = 2; i < x.first.size(); ++i) bx = bx.quad(x.first[i] - '0'); kmldom::LatLonAltBoxPtr l = x.second->get_latlonaltbox(); r.check(close(Box{l->get_north(), l->get_south(), l->get_east(), l->get_west()}, bx), "region:asked-box", x.first); r.check(x.second->has_lod() && x.second->get_lod()->get_minlodpixels() == (root == 2 ? 128 : 64), "region:lod", x.first); } if (fs.count(rootname)) r.check((fs[rootname].doc.child("LookAt") != NULL) == (root == 2), "region:lookat", what);
}
static void splits(Run& r) {
  int n = r.pick(thorough ? 6 : 5); vector<Item> v; FeatureList fl; vector<string> all; vector<kmldom::FeaturePtr> keep; for (int i = 0; i < n; ++i) { int k = r.pick(4); Item it = {k == 0 ? 0.0 : k == 1 ? 10 : 50, k == 0 ? 0.0 : 5, r.pick(2) * 5 - (i % 2), k != 3, k == 1}; v.push_back(it); keep.push_back(make(it, i)); fl.PushBack(keep.back()); fl.PushBack(NULL); } r.check(fl.Size() == (size_t)n, "list:size", ""); bool sort = r.flip(); vector<int> ord; for (int i = 0; i < n; ++i) ord.push_back(i); if (sort) { fl.Sort(); std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return v[a].score > v[b].score; }); } int max = r.pick(4); int box = r.pick(3), how = r.pick(3); Box b = box == 0 ? Box{10, 0, 5, 0} : box == 1 ? Box{9, 0, 5, 0} : Box{90, -90, 180, -180}; string what = num(n) + " sort " + num(sort) + " max " + num(max) + " box " + num(box); FeatureList out; out.PushBack(F()->CreatePlacemark()); FeatureList* po = how == 2 ? NULL : &out; size_t got = how == 1 ? fl.RegionSplit(kmlconvenience::CreateRegion2d(b.n, b.s, b.e, b.w, 1, 2), max, po) : fl.BboxSplit(kmlengine::Bbox(b.n, b.s, b.e, b.w), max, po); r.nontrivial(); r.step();
  vector<int> in, rest; for (int i : ord) if (v[i].loc && b.has(v[i].la, v[i].lo) && (max == 0 || (int)in.size() < max)) in.push_back(i); else rest.push_back(i); r.check(got == in.size(), "list:split-count", what); auto save = [&](FeatureList& l) { kmldom::FolderPtr f = F()->CreateFolder(); r.check(l.Save(f) == l.Size() && f->get_feature_array_size() == l.Size(), "list:save", what); string s; for (size_t i = 0; i < f->get_feature_array_size(); ++i) s += f->get_feature_array_at(i)->get_name() + " "; return s; }; string wi = po ? " " : " ", wr; for (int i : in) wi += "f" + num(i) + " "; for (int i : rest) wr += "f" + num(i) + " "; if (po) r.eq(wi, save(out), "list:split-out", what); else r.check(out.Size() == 1, "list:split-out", what); r.eq(wr, save(fl), "list:split-rest", what); r.check(fl.RegionSplit(NULL, 0, NULL) == 0 && fl.RegionSplit(F()->CreateRegion(), 0, NULL) == 0 && fl.Size() == rest.size(), "list:no-region", what); for (int i = 0; i < n; ++i) r.check(kmlconvenience::GetFeatureScore(keep[i]) == v[i].score, "list:score", what);
}
static void utils(Run& r) {
  static const vector<double> A = {-90, -10, 0, 0.5, 80}, O = {-180, -3, 0, 20, 180}; double n = r.of(A), s = r.of(A), e = r.of(O), w = r.of(O); if (n < s || e < w) r.prune(); Box b = {n, s, e, w}; int lod = r.pick(2), alt = r.pick(2); kmldom::RegionPtr g = F()->CreateRegion(); kmldom::LatLonAltBoxPtr l = F()->CreateLatLonAltBox(); l->set_north(n); l->set_south(s); l->set_east(e); l->set_west(w); if (alt) { l->set_minaltitude(1); l->set_maxaltitude(99); l->set_altitudemode(kmldom::ALTITUDEMODE_ABSOLUTE); } g->set_latlonaltbox(l); if (lod) { kmldom::LodPtr d = F()->CreateLod(); d->set_minlodpixels(5); d->set_maxlodpixels(50); d->set_minfadeextent(1); g->set_lod(d); } g->set_id("g"); string before = kmldom::SerializeRaw(g), what = before; r.nontrivial(); r.step();
  for (int q = 0; q < 4; ++q) { kmldom::RegionPtr c = kmlregionator::CreateChildRegion(g, (kmlregionator::quadrant_t)q); Box x = b.quad(q); kmldom::LatLonAltBoxPtr k = c->get_latlonaltbox(); r.check(k && k->get_north() == x.n && k->get_south() == x.s && k->get_east() == x.e && k->get_west() == x.w, "region:child-box", what); r.check(k->has_minaltitude() == (alt == 1) && (!alt || (k->get_minaltitude() == 1 && k->get_maxaltitude() == 99 && k->get_altitudemode() == kmldom::ALTITUDEMODE_ABSOLUTE)), "region:child-altitude", what); r.check(c->has_lod() == (lod == 1) && (!lod || kmldom::SerializeRaw(c->get_lod()) == kmldom::SerializeRaw(g->get_lod())), "region:child-lod", what); }
  r.eq(before, kmldom::SerializeRaw(kmlregionator::CloneRegion(g)), "region:clone", what); kmldom::NetworkLinkPtr nl = kmlregionator::CreateRegionNetworkLink(g, "x.kml"); r.eq(before, kmldom::SerializeRaw(nl->get_region()), "region:link-region", what); r.check(nl->get_link()->get_href() == "x.kml" && nl->get_link()->get_viewrefreshmode() == kmldom::VIEWREFRESHMODE_ONREGION, "region:link", what); r.eq(before, kmldom::SerializeRaw(kmlregionator::CreateRegionDocument(g)->get_region()), "region:document", what); r.eq(before, kmldom::SerializeRaw(g), "region:input-changed", what);
  // The outline passes every corner and closes.
  kmldom::PlacemarkPtr p = kmlregionator::CreateLineStringBox("nm", g); kmldom::LineStringPtr ls = kmldom::AsLineString(p->get_geometry()); r.check(p->get_name() == "nm" && ls && ls->has_coordinates(), "region:outline", what); kmldom::CoordinatesPtr c = ls->get_coordinates(); size_t m = c->get_coordinates_array_size(); r.check(m == 5, "region:outline", what); double len = 0; std::set<std::pair<double, double>> cs; for (size_t i = 0; i < m; ++i) { kmlbase::Vec3 x = c->get_coordinates_array_at(i); cs.insert({x.get_latitude(), x.get_longitude()}); if (i) { kmlbase::Vec3 y = c->get_coordinates_array_at(i - 1); double dl = fabs(x.get_latitude() - y.get_latitude()), dm = fabs(x.get_longitude() - y.get_longitude()); r.check(dl == 0 || dm == 0, "region:outline-diagonal", what); len += dl + dm; } } for (double la : {n, s}) for (double lo : {e, w}) r.check(cs.count({la, lo}), "region:outline-corner", what); r.check(c->get_coordinates_array_at(0).get_latitude() == c->get_coordinates_array_at(m - 1).get_latitude() && c->get_coordinates_array_at(0).get_longitude() == c->get_coordinates_array_at(m - 1).get_longitude(), "region:outline-open", what); r.check(fabs(len - 2 * (n - s + e - w)) < 1e-9, "region:outline-length", what); r.check(!kmlregionator::CreateLineStringBox("a", F()->CreateRegion())->has_geometry(), "region:outline-none", "");
  kmldom::LatLonBoxPtr al = F()->CreateLatLonBox(), sr = F()->CreateLatLonBox(); sr->set_north(n); sr->set_south(s); sr->set_east(e); sr->set_west(w); r.check(kmlregionator::CreateAlignedAbstractLatLonBox(sr, al), "region:align", what); double sz = al->get_north() - al->get_south(); r.check(al->get_north() >= n && al->get_south() <= s && al->get_east() >= e && al->get_west() <= w && sz == al->get_east() - al->get_west() && fabs(log2(360 / sz) - round(log2(360 / sz))) < 1e-9 && fmod(al->get_north() + 180, sz) == 0 && fmod(al->get_west() + 180, sz) == 0, "region:align-cell", what); r.check(!kmlregionator::CreateAlignedAbstractLatLonBox(NULL, al) && !kmlregionator::CreateAlignedAbstractLatLonBox(sr, NULL), "region:align-null", ""); sr->set_north(181); r.check(!kmlregionator::CreateAlignedAbstractLatLonBox(sr, al), "region:align-outside", "");
}
// Features gathered from a document.
static void saver(Run& r) {
  Node d("Document"), k("kml"); int n = r.pick(4); string want, styles, wantU; bool base = r.flip(), map_ = r.flip(); int cnt = 0; Node* cur = &d; vector<Node> upd; for (int i = 0; i < n; ++i) { string id = "n" + num(i); auto feat = [&](const char* t) { Node p(t); p.add(Node("name", id)); int u = r.pick(5); static const char* U[] = {"", "#a", "#long", "x.kml#a", "#"}; if (u) p.add(Node("styleUrl", U[u])); want += id + "="; if (u) want += (base && (u == 1 || u == 2) ? string("b.kml") : string("")) + U[u]; want += " "; ++cnt; return p; }; switch (r.pick(6)) { case 0: cur->add(feat("Placemark")); break; case 1: cur->add(feat("GroundOverlay")); break; case 2: { Node f("Folder"); f.add(feat("Placemark")); cur->add(f); break; } case 3: { Node s("Style"); s.attr["id"] = id; cur->add(s); styles += id + " "; break; } case 4: { Node s("StyleMap"); s.attr["id"] = id; cur->add(s); styles += id + " "; break; } default: { Node f("Folder"); f.add(feat("NetworkLink")); Node g("Folder"); id += "b"; g.add(feat("Placemark")); f.add(g); cur->add(f); } } } bool reread = false; k.add(d); string kml = xn::write(k); FeatureList fl; kmlengine::SharedStyleMap ssm; kmlconvenience::KmlFeatureListSaver s(&fl, map_ ? &ssm : NULL, base ? "b.kml" : NULL); kmldom::Parser p; p.AddObserver(&s); string err; kmldom::ElementPtr root = p.Parse(kml, &err); r.nontrivial(); r.step(); r.say(kml); r.check(root != NULL, "saver:parse", kml); r.check(fl.Size() == (size_t)cnt, "saver:count", kml); kmldom::FolderPtr f = F()->CreateFolder(); fl.Save(f); string got; for (size_t i = 0; i < f->get_feature_array_size(); ++i) { kmldom::FeaturePtr x = f->get_feature_array_at(i); got += x->get_name() + "=" + (x->has_styleurl() ? x->get_styleurl() : "") + " "; } r.eq(want, got, "saver:features", kml); string gs; if (map_) { for (int i = 0; i < n; ++i) if (ssm.count("n" + num(i))) gs += "n" + num(i) + " "; r.eq(styles, gs, "saver:styles", kml); r.check(ssm.size() == (size_t)std::count(styles.begin(), styles.end(), ' '), "saver:styles", kml); } (void)reread;
}
// Longer lists: scattered, clustered, in rows and all in one place.
static void scale(Run& r) {
  static const int N[] = {9, 17, 33, 65, 129}; int n = N[r.pick(thorough ? 5 : 4)], lay = r.pick(4), pat = r.pick(4), max = r.of({1, 3, 8, 16, 64, 0}); if (lay == 3 && n / (max ? max : n) > 16) r.prune(); if (lay == 1 && n / (max ? max : n) > 65) r.prune(); vector<Item> v; for (int i = 0; i < n; ++i) { double la = lay == 0 ? (i * 37) % 120 - 60 + 0.25 : lay == 1 ? 10 + (i * 7 % n) / 256.0 : lay == 2 ? (i % 8) * 10 + 0.5 : 10, lo = lay == 0 ? (i * 53) % 340 - 170 + 0.25 : lay == 1 ? 20 + (i * 5 % n) / 512.0 : lay == 2 ? (i / 8) * 10 + 0.5 : 20.5; int s = pat == 0 ? 0 : pat == 1 ? i + 1 : pat == 2 ? -i * 10 : (i * 7) % 3 - 1; v.push_back({la, lo, s, !(i % 11 == 10 && pat == 3), false}); }
  regionate(r, v, max, "scale " + num(n) + " layout " + num(lay) + " scores " + num(pat) + " max " + num(max));
}
void mc_setup() {
  rule("lists of up to 4 (5 thorough) features over 7 locations, 4 score patterns, limits 0 to 2, with lines and features without location, regionated into a scratch directory and judged from the files; every answer of a region handler over two levels (three thorough) of regions; splitting, sorting and saving of every list of up to 4 features; the region helpers over all boxes of a 5x5 grid; gathering features from documents of up to 3 parts; lists of 9 to 65 features (129 thorough) in 4 layouts, 4 score patterns and 6 limits");
  assume("features given to a list are not already part of a document; locations within +-180, at most 16 features in one place per limit; file writes succeed; the progress monitor does not ask to stop");
  add("files", featureLists); add("handler", handlers); add("split", splits); add("helpers", utils); add("gather", saver);
  add("scale", scale, BOTH, 1);
}
