// P15: inlining and splitting styles.
#include "domgen.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/style_splitter.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/style_resolver.h"
#include <set>
using namespace mc; using namespace dg;

typedef std::map<string, string> F;
static bool isStyle(const Node& n) { return n.name == "Style" || n.name == "StyleMap"; }
static bool isFeature(const Node& n) { static const std::set<string> s = {"Document", "Folder", "Placemark", "NetworkLink", "GroundOverlay", "ScreenOverlay", "PhotoOverlay"}; return s.count(n.name) != 0; }
static string attr(const Node& n, const string& k) { for (auto& a : n.attr) if (a.first == k) return a.second; return ""; }
// A reference reading of a file's styles, working on the XML only.
struct Eval {
  std::map<string, const Node*> shared; bool exceeded = false;
  explicit Eval(const Node& root) { scan(root); }
  void scan(const Node& n) { if (n.name == "Update") return; for (auto& k : n.kid) { if (n.name == "Document" && isStyle(k) && !attr(k, "id").empty()) shared[attr(k, "id")] = &k; scan(k); } }
  static void flat(const Node& n, const string& p, F* f) { bool any = false; for (auto& k : n.kid) { any = true; flat(k, p + "/" + k.name, f); } if (!any && !p.empty()) (*f)[p] = n.text; }
  void sel(const Node& s, const string& st, int* b, F* f) { if (s.name == "Style") { flat(s, "", f); return; } for (auto& p : s.kid) if (p.name == "Pair") { string key = "normal"; for (auto& k : p.kid) if (k.name == "key") key = k.text; if (key == st) both(p, st, b, f); } }
  void both(const Node& owner, const string& st, int* b, F* f) { for (auto& k : owner.kid) if (k.name == "styleUrl") { if (--*b < 0) { exceeded = true; continue; } if (k.text[0] == '#') { auto i = shared.find(k.text.substr(1)); if (i != shared.end()) sel(*i->second, st, b, f); } else { (*f)["/LineStyle/width"] = "99"; (*f)["/remote"] = k.text; } } for (auto& k : owner.kid) if (isStyle(k)) { if (owner.name == "Document" && !attr(k, "id").empty()) continue; sel(k, st, b, f); } }
  void walk(const Node& n, bool upd, vector<std::pair<string, string>>* out) { if (n.name == "Update") upd = true; if (!upd && isFeature(n)) for (const char* st : {"normal", "highlight"}) { F f; int b = 5; exceeded = false; both(n, st, &b, &f); string s; for (auto& x : f) s += x.first + "=" + x.second + " "; if (exceeded) s = "limit"; string id = attr(n, "id"); out->push_back({n.name + " " + id + " " + st, s}); } for (auto& k : n.kid) walk(k, upd, out); }
};
// The document without the styles of features and documents (outside updates).
static Node strip(const Node& n, bool upd) { Node o = n; o.kid.clear(); if (n.name == "Update") upd = true; for (auto& k : n.kid) if (upd || !isFeature(n) || !(isStyle(k) || k.name == "styleUrl")) o.kid.push_back(strip(k, upd)); return o; }
static void ids(const Node& n, vector<string>* v) { string i = attr(n, "id"); if (!i.empty()) v->push_back(i); for (auto& k : n.kid) ids(k, v); }
static void features(const Node& n, bool upd, vector<const Node*>* v) { if (n.name == "Update") upd = true; if (!upd && isFeature(n)) v->push_back(&n); for (auto& k : n.kid) features(k, upd, v); }
static const Node* kid(const Node& n, const char* name) { for (auto& k : n.kid) if (k.name == name) return &k; return NULL; }
static const Node* own(const Node& n) { for (auto& k : n.kid) if (isStyle(k)) return &k; return NULL; }
static void verify(Run& r, const string& doc) {
  r.nontrivial(); r.say(doc); Node in; string why; r.check(xn::read(doc, &in, &why), "split:generator", doc + why); vector<std::pair<string, string>> before; Eval e0(in); e0.walk(in, false, &before);
  for (int split = 0; split < 2; ++split) {
    string err; kmldom::ElementPtr e = split ? kmlengine::SplitStyles(doc, &err) : kmlengine::InlineStyles(doc, &err); string T = split ? "split" : "inline", ctx = T + " " + doc; r.step(); r.check(e.get() != NULL && err.empty(), "split:parse", ctx + " " + err); string xml = kmldom::SerializeRaw(e); Node out; r.check(xn::read(xml, &out, &why), "split:output", ctx + " -> " + xml); Eval e1(out); vector<std::pair<string, string>> after; e1.walk(out, false, &after); ctx += " -> " + xml;
    r.eq(str(before.size()), str(after.size()), "split:features", ctx);
    for (size_t i = 0; i < before.size(); ++i) { r.eq(before[i].first, after[i].first, "split:features", ctx); if (before[i].second == "limit" || after[i].second == "limit") continue; r.eq(before[i].second, after[i].second, T + ":resolved", before[i].first + " " + ctx); r.state(before[i].second); }
    r.eq(xn::write(strip(in, false)), xn::write(strip(out, false)), T + ":other-content", ctx);
    vector<string> iv; ids(out, &iv); std::set<string> is(iv.begin(), iv.end()); r.check(iv.size() == is.size(), T + ":duplicate-id", ctx);
    // The resolver agrees on the result.
    if (kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromString(xml)) (void)kf; else r.fail("split:reload", ctx);
    // The transformation took place.
    vector<const Node*> fi, fo; features(in, false, &fi); features(out, false, &fo); bool docSeen = false;
    for (size_t i = 0; i < fi.size(); ++i) { const Node &a = *fi[i], &b = *fo[i]; if (a.name == "Document") { docSeen = true; if (split) { size_t na = 0; for (auto& k : a.kid) if (isStyle(k)) { r.check(na < b.kid.size(), "split:kept-shared", ctx); ++na; bool f = false; for (auto& q : b.kid) if (xn::write(q) == xn::write(k)) f = true; r.check(f, "split:kept-shared", xn::write(k) + " " + ctx); } } continue; }
      if (split && docSeen && own(a) && !kid(a, "styleUrl")) r.check(!own(b) && kid(b, "styleUrl") && kid(b, "styleUrl")->text[0] == '#' && e1.shared.count(kid(b, "styleUrl")->text.substr(1)), "split:not-moved", a.name + " " + ctx);
      if (split && (kid(a, "styleUrl") || !own(a))) { r.eq(own(a) ? xn::write(*own(a)) : "", own(b) ? xn::write(*own(b)) : "", "split:touched", ctx); r.eq(kid(a, "styleUrl") ? kid(a, "styleUrl")->text : "", kid(b, "styleUrl") ? kid(b, "styleUrl")->text : "", "split:touched", ctx); }
      if (!split && !kid(a, "styleUrl")) { r.eq(own(a) ? xn::write(*own(a)) : "", own(b) ? xn::write(*own(b)) : "", "inline:touched", ctx); r.check(!kid(b, "styleUrl"), "inline:touched", ctx); }
      if (!split && kid(a, "styleUrl")) { string u = kid(a, "styleUrl")->text; const Node* t = u[0] == '#' && e0.shared.count(u.substr(1)) ? e0.shared[u.substr(1)] : NULL; if (!t) { r.check(kid(b, "styleUrl") && kid(b, "styleUrl")->text == u, "inline:lost-reference", ctx); } else { string id = u.substr(1); size_t p = doc.find("id=\"" + id + "\""), q = doc.find("id=\"" + attr(a, "id") + "\""); if (t->name == "Style" && p < q) r.check(!kid(b, "styleUrl") && own(b), "inline:not-copied", a.name + " " + ctx); } } }
  }
}
static const char* S1 = "<LineStyle><color>ff000001</color><width>1</width></LineStyle>";
static const char* S2 = "<IconStyle><scale>2</scale><Icon><href>h2</href></Icon></IconStyle><LineStyle><width>2</width></LineStyle>";
static const char* S3 = "<LineStyle><width>3</width></LineStyle><PolyStyle><fill>0</fill></PolyStyle>";
static const char* S4 = "<LineStyle><color>ff000004</color></LineStyle><BalloonStyle><text>t</text></BalloonStyle>";
static string shared(Run& r, const char* id, const char* other, const char* body) {
  string a = string(" id=\"") + id + "\""; switch (r.pick(6)) { case 0: return ""; case 1: return "<Style" + a + ">" + body + "</Style>"; case 2: return "<StyleMap" + a + "><Pair><key>normal</key><styleUrl>#" + other + "</styleUrl></Pair><Pair><key>highlight</key><Style>" + body + "</Style></Pair></StyleMap>"; case 3: return "<StyleMap" + a + "><Pair><styleUrl>http://h/r.kml#a</styleUrl><Style>" + body + "</Style></Pair></StyleMap>"; case 4: return "<StyleMap" + a + "><Pair><key>highlight</key><styleUrl>#" + other + "</styleUrl><Style>" + body + "</Style></Pair></StyleMap>"; default: return "<Style" + a + "/>"; }
}
static string look(Run& r, bool rich) {  // styleUrl and inline style of a feature
  string u = rich ? r.of({string(""), string("#a"), string("#b"), string("#zz"), string("http://h/r.kml#a"), string("http://h#a")}) : r.of({string(""), string("#a"), string("#b")}); string o = u.empty() ? "" : "<styleUrl>" + u + "</styleUrl>"; static int n; (void)n;
  switch (r.pick(rich ? 6 : 3)) { case 1: o += string("<Style>") + S3 + "</Style>"; break; case 2: o += string("<StyleMap><Pair><key>normal</key><styleUrl>#b</styleUrl></Pair><Pair><key>highlight</key><styleUrl>#a</styleUrl><Style>") + S3 + "</Style></Pair></StyleMap>"; break; case 3: o += string("<Style id=\"x\">") + S4 + "</Style>"; break; case 4: o += string("<Style id=\"_0\">") + S4 + "</Style>"; break; case 5: o += "<Style/>"; break; } return o;
}
static string pm(const string& id, const string& s) { return "<Placemark id=\"" + id + "\"><name>n</name>" + s + "<Point id=\"g" + id + "\"><extrude>1</extrude></Point></Placemark>"; }
// Shared styles a and b, before or after the feature.
static void one(Run& r) { string a = shared(r, "a", "b", S1), b = shared(r, "b", "a", S2), p = pm("p", look(r, true)); int o = r.pick(5); verify(r, "<kml><Document>" + (o == 0 ? a + b + p : o == 1 ? b + a + p : o == 2 ? a + p + b : o == 3 ? b + p + a : p + a + b) + "</Document></kml>"); }
// Two features, in every container arrangement.
static void two(Run& r) {
  string a = shared(r, "a", "b", S1), b = string("<Style id=\"b\">") + S2 + "</Style>", l1 = look(r, false), l2 = look(r, false), d; int k = r.pick(8); string q = pm("p", l1), s = pm("q", l2), F0 = "<Folder id=\"f\"><name>n</name>" + l1;
  switch (k) { case 0: d = "<Document>" + a + b + q + s + "</Document>"; break; case 1: d = "<Document>" + a + b + F0 + s + "</Folder></Document>"; break; case 2: d = "<Document id=\"d\">" + l1 + a + b + s + "</Document>"; break; case 3: d = "<Document>" + a + "<Document id=\"e\">" + b + q + "</Document>" + s + "</Document>"; break; case 4: d = "<Folder id=\"f\">" + q + "<Document id=\"e\">" + a + b + s + "</Document></Folder>"; break; case 5: d = "<Folder id=\"f\"><Document id=\"e\">" + a + b + q + "</Document>" + s + "</Folder>"; break; case 6: d = "<Document>" + a + b + "<NetworkLink id=\"p\">" + l1 + "<Link><href>l</href></Link></NetworkLink><GroundOverlay id=\"q\">" + l2 + "<Icon><href>i</href></Icon></GroundOverlay></Document>"; break;
    default: d = "<Document>" + a + b + "<ScreenOverlay id=\"p\">" + l1 + "</ScreenOverlay><PhotoOverlay id=\"q\">" + l2 + "</PhotoOverlay></Document>"; }
  verify(r, "<kml>" + d + "</kml>");
}
// Nothing inside an Update is touched.
static void update(Run& r) {
  string a = string("<Style id=\"a\">") + S1 + "</Style>", l1 = look(r, false), l2 = look(r, true); int k = r.pick(4); string u = k == 0 ? "<Create><Document targetId=\"t\"><Style id=\"b\">" + string(S2) + "</Style><Placemark>" + l1 + "</Placemark></Document></Create>" : k == 1 ? "<Change><Placemark targetId=\"t\">" + l1 + "</Placemark></Change>" : k == 2 ? "<Create><Folder targetId=\"t\"><Placemark>" + l1 + "</Placemark></Folder></Create><Change><Document targetId=\"z\">" + l1 + "</Document></Change>" : "<Change><Style targetId=\"t\">" + string(S2) + "</Style></Change>"; string up = "<Update><targetHref>x</targetHref>" + u + "</Update>", t = "<gx:Tour><gx:Playlist><gx:AnimatedUpdate>" + up + "</gx:AnimatedUpdate></gx:Playlist></gx:Tour>"; switch (r.pick(4)) { case 0: verify(r, "<kml><NetworkLinkControl>" + up + "</NetworkLinkControl><Document>" + a + pm("p", l2) + "</Document></kml>"); break; case 1: verify(r, "<kml><Document>" + a + t + pm("p", l2) + "</Document></kml>"); break; case 2: verify(r, "<kml><Document>" + a + pm("p", l2) + t + "</Document></kml>"); break; default: verify(r, "<kml><Document><Folder>" + t + pm("p", l2) + "</Folder>" + a + "</Document></kml>"); }
}
// Many inline styles, with ids like the generated ones anywhere in the file.
static void names(Run& r) {
  int n = 1 + r.pick(4), pos = r.pick(5), num = r.pick(3); string id = "_" + str(num), st = "<Style id=\"" + id + "\">" + S1 + "</Style>", d = "<Document>"; if (pos == 0) d += st; for (int i = 0; i < n; ++i) { string in = r.flip() ? string("<Style>") + S3 + "</Style>" : r.flip() ? string("<StyleMap><Pair><key>normal</key><Style>") + S4 + "</Style></Pair></StyleMap>" : string(); d += pm("p" + str(i), in + ""); } if (pos == 1) d += st; if (pos == 2) d += "<Placemark id=\"" + id + "\"><name>z</name></Placemark>"; if (pos == 3) d += "<Placemark id=\"z\"><styleUrl>#" + id + "</styleUrl></Placemark>" + st; verify(r, "<kml>" + d + "</Document></kml>");
}
static void bad(Run& r) { string a = r.of({string(""), string("<kml>"), string("<kml><Document><Style id=\"a\"/><Placemark><styleUrl>#a</styleUrl></Document></kml>"), string("<Document><Style id=\"a\"/><Placemark><Style/></Placemark>"), string("x")}); r.nontrivial(); string e1, e2; kmldom::ElementPtr i = kmlengine::InlineStyles(a, &e1), s = kmlengine::SplitStyles(a, &e2); r.check(!i.get() && !s.get() && !e1.empty() && !e2.empty(), "split:bad-input", a); (void)kmlengine::InlineStyles(a, NULL); (void)kmlengine::SplitStyles(a, NULL); }
// Many features and many shared styles, with ids in the way.
static void scale(Run& r) {
  int n = r.of({5, 9, 11, 17, 33, 65, 101, 129, 257}), mode = r.pick(4), clash = r.pick(4); string d = "<Document>", S = "<Style id=\"s"; for (int i = 0; i < n; ++i) if (mode != 0) d += "<Style id=\"s" + str(i) + "\"><LineStyle><width>" + str(i + 1) + "</width></LineStyle></Style>";
  for (int i = 0; i < n; ++i) { string look; bool inl = mode == 0 || (mode == 1 && i % 2) || (mode == 3 && i % 5 == 0); if (inl) look = "<Style><IconStyle><scale>" + str(i + 1) + "</scale></IconStyle></Style>"; else look = "<styleUrl>#s" + str(i * 7 % n) + "</styleUrl>"; string id = clash == 0 ? "f" + str(i) : clash == 1 ? "_" + str(i) : clash == 2 ? "_" + str(n - 1 - i) : "_" + str(i * 3); d += "<Placemark id=\"" + id + "\"><name>n</name>" + look + "</Placemark>"; } verify(r, d + "</Document>");
}
void mc_setup() {
  rule("documents of up to 257 features and shared styles with clashing ids; every pair of 6 kinds of shared style (plain, map to the other, map to another file, missing) in 5 positions around a feature with 6 references and 6 inline styles; two features in 8 arrangements of folders, documents, links and overlays; documents with an update; up to 4 inline styles with ids like the generated ones placed anywhere; inlined and split, each compared with an independent reading of the XML before and after");
  assume("ids are unique, a feature's styleUrl precedes its style (the schema's order), and at most five references are followed");
  add("scale", scale);
  add("one", one); add("two", two); add("update", update); add("names", names); add("bad", bad, BOTH, 1);
}
