// P14: style resolution.
#include "domgen.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/style_merger.h"
#include "kml/base/net_cache.h"
using namespace mc; using namespace dg; using kmlengine::KmlFilePtr;

typedef std::map<string, string> F;  // resolved fields
static void over(F& a, const F& b) { for (auto& x : b) a[x.first] = x.second; }
struct Sel; typedef std::shared_ptr<Sel> SelP;
struct Pr { int key; string url; SelP sel; };          // key: 0 normal, 1 highlight, 2 no key element
struct Sel { int kind; F f; vector<Pr> pair; string id; };  // kind 0 Style 1 StyleMap
static SelP style(const F& f) { SelP s(new Sel); s->kind = 0; s->f = f; return s; }
static SelP smap(const vector<Pr>& p) { SelP s(new Sel); s->kind = 1; s->pair = p; return s; }
static string xml(const SelP& s, const string& id) {
  string a = id.empty() ? "" : " id=\"" + id + "\""; if (s->kind == 0) { string o = "<Style" + a + ">"; auto g = [&](const char* k) { auto i = s->f.find(k); return i == s->f.end() ? string() : i->second; };
    if (!g("icon.scale").empty() || !g("icon.href").empty()) o += "<IconStyle>" + (g("icon.scale").empty() ? "" : "<scale>" + g("icon.scale") + "</scale>") + (g("icon.href").empty() ? "" : "<Icon><href>" + g("icon.href") + "</href></Icon>") + "</IconStyle>";
    if (!g("line.color").empty() || !g("line.width").empty()) o += "<LineStyle>" + (g("line.color").empty() ? "" : "<color>" + g("line.color") + "</color>") + (g("line.width").empty() ? "" : "<width>" + g("line.width") + "</width>") + "</LineStyle>"; if (!g("poly.fill").empty()) o += "<PolyStyle><fill>" + g("poly.fill") + "</fill></PolyStyle>"; if (!g("balloon.text").empty()) o += "<BalloonStyle><text>" + g("balloon.text") + "</text></BalloonStyle>"; return o + "</Style>"; }
  string o = "<StyleMap" + a + ">"; for (auto& p : s->pair) { o += "<Pair>"; if (p.key != 2) o += string("<key>") + (p.key ? "highlight" : "normal") + "</key>"; if (!p.url.empty()) o += "<styleUrl>" + p.url + "</styleUrl>"; if (p.sel) o += xml(p.sel, ""); o += "</Pair>"; } return o + "</StyleMap>";
}
struct File { std::map<string, SelP> shared; string url; };
struct World { std::map<string, File> file; };
static string resolve_url(const string& base, const string& ref) { if (ref.substr(0, 7) == "http://") return ref; size_t s = base.rfind('/'); string d = base.substr(0, s + 1), t = ref; while (t.substr(0, 3) == "../") { t.erase(0, 3); d = d.substr(0, d.rfind('/', d.size() - 2) + 1); } return d + t; }
static void merge(const World& w, const File& f, const string& url, const SelP& sel, int state, bool net, int* budget, F* out);
static void merge_sel(const World& w, const File& f, const SelP& s, int state, bool net, int* budget, F* out) { if (!s) return; if (s->kind == 0) { over(*out, s->f); return; } for (auto& p : s->pair) if ((p.key == 2 ? 0 : p.key) == state) merge(w, f, p.url, p.sel, state, net, budget, out); }
static void merge(const World& w, const File& f, const string& url, const SelP& sel, int state, bool net, int* budget, F* out) {
  if (!url.empty() && --*budget >= 0) { size_t h = url.find('#'); string frag = h == string::npos ? "" : url.substr(h + 1), doc = url.substr(0, h); const File* t = NULL; if (doc.empty()) t = &f; else if (net) { auto i = w.file.find(resolve_url(f.url, doc)); if (i != w.file.end()) t = &i->second; } if (!frag.empty() && t) { auto i = t->shared.find(frag); if (i != t->shared.end()) merge_sel(w, *t, i->second, state, net, budget, out); } }
  merge_sel(w, f, sel, state, net, budget, out);
}
struct Fetch : kmlbase::NetFetcher { std::map<string, string> m; mutable int n = 0; bool FetchUrl(const string& u, string* d) const { ++n; auto i = m.find(u); if (i == m.end()) return false; *d = i->second; return true; } };
static string fileXml(const File& f, const string& feature) { string o = "<kml><Document>"; for (auto& s : f.shared) o += xml(s.second, s.first); return o + feature + "</Document></kml>"; }
static F read(Run& r, const kmldom::StylePtr& s) { F f; string x = kmldom::SerializeRaw(s), why; Node n; r.check(xn::read(x, &n, &why), "styles:output", x); for (auto& k : n.kid) for (auto& q : k.kid) { string p = k.name == "IconStyle" ? "icon." : k.name == "LineStyle" ? "line." : k.name == "PolyStyle" ? "poly." : "balloon."; if (q.name == "Icon") f["icon.href"] = q.kid[0].text; else f[p + q.name] = q.text; } return f; }
static string show(const F& f) { string s; for (auto& x : f) s += x.first + "=" + x.second + " "; return s; }
static F fs(int i, int kind) { F f; string n = str(i); if (kind == 0) { f["line.width"] = n; f["icon.scale"] = n; } else if (kind == 1) { f["line.width"] = n + "1"; f["line.color"] = "ff00000" + n; f["balloon.text"] = "t" + n; } else { f["poly.fill"] = i % 2 ? "0" : "1"; f["icon.href"] = "h" + n; } return f; }
static void verify(Run& r, const World& w, const string& main, const string& url, const SelP& inl, int net) {
  const File& f = w.file.at(main); string feature = string("<Placemark>") + (url.empty() ? "" : "<styleUrl>" + url + "</styleUrl>") + (inl ? xml(inl, "") : "") + "</Placemark>"; string doc = fileXml(f, feature); Fetch fe; for (auto& x : w.file) fe.m[x.first] = x.first == main ? doc : fileXml(x.second, ""); kmlengine::KmlCache cache(&fe, 5); r.nontrivial(); r.say(doc);
  KmlFilePtr kf = net ? cache.FetchKmlAbsolute(main) : KmlFilePtr(kmlengine::KmlFile::CreateFromString(doc)); r.check(kf.get() != NULL, "styles:load", doc); string before = kmldom::SerializeRaw(kf->get_root()); kmldom::FeaturePtr ft; { kmldom::DocumentPtr d = kmldom::AsDocument(kmldom::AsKml(kf->get_root())->get_feature()); ft = d->get_feature_array_at(0); }
  string rem; for (auto& x : w.file) if (x.first != main) rem += " | " + x.first + ": " + fe.m[x.first];
  for (int st = 0; st < 2; ++st) { F want; int budget = 5; merge(w, f, url, inl, st, net, &budget, &want); r.step(); kmldom::StylePtr s = kmlengine::CreateResolvedStyle(ft, kf, st ? kmldom::STYLESTATE_HIGHLIGHT : kmldom::STYLESTATE_NORMAL); r.check(s.get() != NULL && !s->GetParent().get(), "styles:no-style", doc); r.eq(show(want), show(read(r, s)), "styles:resolved", string(st ? "highlight" : "normal") + " of " + doc + rem); r.state(show(want));
    // The result is a copy.
    kmldom::LineStylePtr ls = s->get_linestyle(); if (ls) ls->set_width(77); r.eq(before, kmldom::SerializeRaw(kf->get_root()), "styles:modified", doc);
    if (!net && !inl) { std::unique_ptr<kmlengine::StyleMerger> sm(kmlengine::StyleMerger::CreateFromKmlFile(*kf, st ? kmldom::STYLESTATE_HIGHLIGHT : kmldom::STYLESTATE_NORMAL)); sm->MergeStyle(url, NULL); r.eq(show(want), show(read(r, sm->GetResolvedStyle())), "styles:merger", doc); } }
  r.eq(before, kmldom::SerializeRaw(kf->get_root()), "styles:modified", doc);
}
static SelP pickShared(Run& r, int i, const vector<string>& to, bool rich) {
  int k = r.pick(rich ? 8 : 4); if (k == 0) return NULL; if (k == 1) return style(fs(i, 0)); if (k == 2) return smap({{0, r.of(to), NULL}, {1, r.of(to), NULL}}); if (k == 3) return smap({{2, r.of(to), style(fs(i + 5, 1))}});
  if (k == 4) return style(fs(i, 1)); if (k == 5) return smap({{1, r.of(to), style(fs(i, 2))}, {0, "", style(fs(i, 0))}}); if (k == 6) return smap({{0, "", smap({{0, r.of(to), style(fs(i, 2))}, {1, "", style(fs(9, 0))}})}}); return smap({});
}
static void local(Run& r, int nid, bool rich) {
  static const vector<string> IDS = {"a", "b", "c"}; vector<string> to; for (int i = 0; i < nid; ++i) to.push_back("#" + IDS[i]); to.push_back("#zz"); World w; File& f = w.file["http://h/d/m.kml"]; f.url = "http://h/d/m.kml"; for (int i = 0; i < nid; ++i) if (SelP s = pickShared(r, i + 1, to, rich)) f.shared[IDS[i]] = s;
  string url = r.of({string("#a"), string(""), string("#zz")}); int inl = r.pick(3); SelP in; if (inl == 1) in = style(fs(7, 1)); if (inl == 2) in = smap({{0, "#a", style(fs(8, 2))}, {1, nid > 1 ? "#b" : "", NULL}}); verify(r, w, "http://h/d/m.kml", url, in, 0);
}
// Several pairs for one state: every one is laid over the previous.
static void pairs(Run& r) { World w; File& f = w.file["http://h/d/m.kml"]; f.url = "http://h/d/m.kml"; f.shared["b"] = style(fs(2, 0)); f.shared["c"] = style(fs(3, 1)); vector<Pr> v; int n = r.pick(thorough ? 5 : 4); for (int i = 0; i < n; ++i) { Pr p; p.key = r.pick(3); p.url = r.of({string(""), string("#b"), string("#c")}); if (r.flip()) p.sel = style(fs(i + 4, i % 3)); v.push_back(p); } f.shared["a"] = smap(v); bool inl = r.flip(); verify(r, w, "http://h/d/m.kml", inl ? "" : "#a", inl ? smap(v) : SelP(), 0); }
// Odd references are ignored.
static void urls(Run& r) { World w; File& f = w.file["http://h/d/m.kml"]; f.url = "http://h/d/m.kml"; f.shared["a"] = style(fs(1, 0)); File& g = w.file["http://h/d/r.kml"]; g.url = "http://h/d/r.kml"; g.shared["a"] = style(fs(2, 1)); File& e = w.file["http://h/e/s.kml"]; e.url = "http://h/e/s.kml"; e.shared["a"] = style(fs(3, 2)); File& q = w.file["http://k"]; q.url = "http://k"; q.shared["a"] = style(fs(4, 2));
  static const vector<string> U = {"", "#", "a", "#A", "##a", "r.kml", "r.kml#", "r.kml#a", "./r.kml#a", "http://h/d/r.kml#a", "http://h/e/s.kml#a", "../e/s.kml#a", "/e/s.kml#a", "none.kml#a", "http://none#a", "http://k#a", "ht tp://x#a", "%zz#a", "r.kml#zz", "mailto:x#a", "//h/d/r.kml#a", "http://h/d/m.kml#a", "m.kml#a", "?q#a"}; string u = r.of(U); int net = r.pick(2), inl = r.pick(2);
  // What these lead to, by hand.
  string to; if (u == "r.kml#a" || u == "./r.kml#a" || u == "http://h/d/r.kml#a" || u == "//h/d/r.kml#a") to = "http://h/d/r.kml"; if (u == "http://h/e/s.kml#a" || u == "../e/s.kml#a" || u == "/e/s.kml#a") to = "http://h/e/s.kml"; if (u == "http://k#a") to = "http://k"; if (u == "http://h/d/m.kml#a" || u == "m.kml#a") to = "http://h/d/m.kml"; if (u == "?q#a") r.prune();
  if (to == "http://k") { /* an address without a path: either found there or nowhere, never in this file */ }
  F want; if (!to.empty() && net) want = w.file[to].shared["a"]->f; F alt = want; if (to == "http://k") alt.clear(); SelP in; if (inl) { in = style(fs(6, 1)); over(want, in->f); over(alt, in->f); }
  string feature = "<Placemark>" + (u.empty() ? "" : "<styleUrl>" + u + "</styleUrl>") + (in ? xml(in, "") : "") + "</Placemark>", doc = fileXml(f, feature); Fetch fe; for (auto& x : w.file) fe.m[x.first] = x.first == "http://h/d/m.kml" ? doc : fileXml(x.second, ""); kmlengine::KmlCache cache(&fe, 5); KmlFilePtr kf = net ? cache.FetchKmlAbsolute("http://h/d/m.kml") : KmlFilePtr(kmlengine::KmlFile::CreateFromString(doc)); r.nontrivial(); r.step(); r.check(kf.get() != NULL, "styles:load", doc); kmldom::FeaturePtr ft = kmldom::AsDocument(kmldom::AsKml(kf->get_root())->get_feature())->get_feature_array_at(0); string got = show(read(r, kmlengine::CreateResolvedStyle(ft, kf, kmldom::STYLESTATE_NORMAL))); if (got != show(alt)) r.eq(show(want), got, "styles:reference", u + (net ? " with" : " without") + " network");
}
static void remote(Run& r) {
  World w; File &m = w.file["http://h/d/m.kml"], &o = w.file["http://h/d/r.kml"], &p = w.file["http://h/e/s.kml"]; m.url = "http://h/d/m.kml"; o.url = "http://h/d/r.kml"; p.url = "http://h/e/s.kml"; auto pick = [&](int i, const vector<string>& to) -> SelP { int k = r.pick(3); if (k == 0) return style(fs(i, 0)); if (k == 1) return smap({{0, r.of(to), NULL}, {1, "#a", style(fs(i + 4, 1))}}); return smap({{0, r.of(to), style(fs(i, 2))}}); };
  m.shared["a"] = pick(1, {"#b", "r.kml#a", "http://h/e/s.kml#a", "none.kml#a"}); m.shared["b"] = style(fs(2, 1)); o.shared["a"] = pick(3, {"#b", "m.kml#a", "m.kml#b", "../e/s.kml#a", "#zz", "#a"}); o.shared["b"] = style(fs(4, 1)); p.shared["a"] = pick(5, {"#b", "../d/r.kml#b", "m.kml#a"}); if (r.flip()) p.shared["b"] = style(fs(6, 2));
  string url = r.of({string("#a"), string("r.kml#a"), string("http://h/e/s.kml#a")}); verify(r, w, m.url, url, r.flip() ? style(fs(7, 1)) : SelP(), 1);
}
// Every field of every sub style in the shared and in the inline style.
static void cascade(Run& r) {
  const Class& st = key("Style"); vector<std::pair<int, int>> fl; for (size_t i = 0; i < st.f.size(); ++i) if (st.f[i].complex()) { const Class& k = key(st.f[i].accept[0]); for (size_t j = 0; j < k.f.size(); ++j) if (k.f[j].api != "id" && k.f[j].api != "targetid") fl.push_back({(int)i, (int)j}); }
  auto one = [&](M* m, const std::pair<int, int>& x, int w) { M k(st.f[x.first].accept[0]); const Field& f = k.c->f[x.second]; V v = values(f); if (f.scalar()) k.sc[x.second] = (f.kind == STR || f.kind == ASTR || f.kind == TEXT) ? string(w ? "s" : "t") : v[w % v.size()]; else put(k, x.second, w ? "s" : "t"); m->ch[x.first].push_back(k); };
  auto& a = r.of(fl); auto& b = r.of(fl); int how = r.pick(3); static const vector<string> FK = {"Placemark", "Folder", "NetworkLink", "GroundOverlay", "ScreenOverlay", "PhotoOverlay"}; const string& fk = FK[(how + a.second + b.second) % 6]; M s("Style"), t("Style"), e("Style"); one(&s, a, 0); one(&t, b, 1);
  // how 0: shared + inline; 1: through a style map with an inline pair; 2: style map's two pairs
  M doc("Document"), feat(fk); s.set("id", "a"); doc.add("styleselector", s); M want("Style"), nrm = s; nrm.sc.clear(); if (how == 0) { feat.set("styleurl", "#a").add("styleselector", t); } else { M sm("StyleMap"); sm.set("id", "m"); M p("Pair"); p.set("key", "0").set("styleurl", "#a"); if (how == 1) p.add("styleselector", t); sm.add("pair", p); if (how == 2) { M q("Pair"); q.set("key", "0"); q.add("styleselector", t); sm.add("pair", q); } doc.add("styleselector", sm); feat.set("styleurl", "#m"); }
  doc.add("feature", feat); ref_merge(nrm, &want); ref_merge(t, &want); string in = xn::write(to_xml(doc)), why; KmlFilePtr kf = kmlengine::KmlFile::CreateFromImport(kmldom::Parse(in, NULL)); r.check(kf.get() != NULL, "styles:load", in); r.nontrivial(); r.step(); r.say(in); kmldom::FeaturePtr ft = kmldom::AsDocument(kf->get_root())->get_feature_array_at(0); string before = kmldom::SerializeRaw(kf->get_root());
  kmldom::StylePtr got = kmlengine::CreateResolvedStyle(ft, kf, kmldom::STYLESTATE_NORMAL); r.check(got.get() != NULL, "styles:none", in); got->clear_id(); r.check(equals(want, got, &why, true), "styles:cascade", why + " from " + in + " got " + kmldom::SerializeRaw(got));
  kmldom::StylePtr hi = kmlengine::CreateResolvedStyle(ft, kf, kmldom::STYLESTATE_HIGHLIGHT); M hw("Style"); if (how == 0) hw = want; hi->clear_id(); r.check(equals(hw, hi, &why, true), "styles:cascade-highlight", why + " from " + in); r.eq(before, kmldom::SerializeRaw(kf->get_root()), "styles:modified", in);
}
// Many shared styles; style maps with many pairs; chains of every length.
static void scale(Run& r) {
  int n = r.of({5, 9, 17, 33, 65, 129, 257}), what = r.pick(3), k = r.pick(3); string x = "<Document>"; int want = 0; if (what == 0) { int at = k == 0 ? 0 : k == 1 ? n / 2 : n - 1; for (int i = 0; i < n; ++i) x += "<Style id=\"s" + str(i) + "\"><LineStyle><width>" + str(i + 1) + "</width></LineStyle></Style>"; x += "<Placemark><styleUrl>#s" + str(at) + "</styleUrl></Placemark>"; want = at + 1; }
  else if (what == 1) { x += "<StyleMap id=\"m\">"; for (int i = 0; i < n; ++i) { bool hl = k == 0 ? false : k == 1 ? i % 2 : i != 0; x += string("<Pair><key>") + (hl ? "highlight" : "normal") + "</key><Style><LineStyle><width>" + str(i + 1) + "</width></LineStyle></Style></Pair>"; if (!hl) want = i + 1; } x += "</StyleMap><Placemark><styleUrl>#m</styleUrl></Placemark>"; }
  else { string in; for (int i = 0; i < n; ++i) x += "<Style id=\"s" + str(i) + "\"><LineStyle><width>" + str(i + 1) + "</width></LineStyle></Style>"; for (int i = 0; i < n; ++i) x += "<Placemark><styleUrl>#s" + str((i * 7 + k) % n) + "</styleUrl></Placemark>"; }
  KmlFilePtr kf = kmlengine::KmlFile::CreateFromImport(kmldom::Parse(x + "</Document>", NULL)); r.check(kf.get() != NULL, "styles:load", str(n)); r.nontrivial(); kmldom::DocumentPtr d = kmldom::AsDocument(kf->get_root()); for (size_t i = 0; i < d->get_feature_array_size(); ++i) { r.step(); kmldom::StylePtr s = kmlengine::CreateResolvedStyle(d->get_feature_array_at(i), kf, kmldom::STYLESTATE_NORMAL); r.check(s && s->has_linestyle() && s->get_linestyle()->get_width() == (what == 2 ? (int)(i * 7 + k) % n + 1 : want), "styles:scale", str(what) + " " + str(n)); }
}
void mc_setup() {
  rule("every pair of fields of all sub styles in a shared and an inline style, through a reference or a style map; documents of up to 257 shared styles and style maps of up to 257 pairs; every graph of up to 2 shared styles of 8 kinds and 3 shared styles of 4 kinds (8 kinds thorough) with every choice of targets (cycles, chains, missing), three style references and three inline styles of the feature, both states; style maps with up to 3 pairs (4 thorough) of every key, target and inline style; 24 spellings of a reference with and without network; three files with styles referring across files and back; each against a reference cascade, and the document compared before and after");
  assume("at most five style references are followed (the library's limit on nested references)");
  add("cascade", cascade, BOTH, 2); add("scale", scale); add("local2", [](Run& r) { local(r, 2, true); }); add("local3", [](Run& r) { local(r, 3, thorough); }); add("pairs", pairs); add("urls", urls, BOTH, 1); add("remote", remote);
}
