// P23: link discovery over documents with references at all positions.
#include "core.h"
#include "xmlnode.h"
#include "zipmk.h"
#include "kml/engine.h"
#include "kml/engine/get_links.h"
#include "kml/engine/get_link_parents.h"
#include "kml/engine/link_util.h"
#include "kml/engine/kml_cache.h"
#include "kml/convenience/kmz_check_links.h"
#include "kml/base/net_cache.h"
#include "kml/dom/xsd.h"
#include <memory>
#include <set>
using namespace mc; using std::string; using std::vector; using xn::Node;
struct L { const char* v; bool rel; const char* path; };
static const vector<L>& LINKS() { static const vector<L> v = {{"a.png", true, "a.png"}, {"sub/b.kml#id", true, "sub/b.kml"}, {"http://h/a.png", false, ""}, {"#frag", false, ""}, {"//h/p", false, ""}, {"/root.png", true, "/root.png"}, {"x:y.dae", false, ""}, {"a&b?c=http://d/e", true, "a&b?c=http://d/e"}, {"a b.png", true, "a b.png"}, {"mailto:a@b", false, ""}}; return v; }
static Node leaf(const string& path, const string& v) { Node n; size_t p = path.rfind('/'); Node cur(path.substr(p == string::npos ? 0 : p + 1), v); string rest = p == string::npos ? "" : path.substr(0, p); while (!rest.empty()) { p = rest.rfind('/'); Node up(rest.substr(p == string::npos ? 0 : p + 1)); up.add(cur); cur = up; rest = p == string::npos ? "" : rest.substr(0, p); } return cur; }
struct Carrier { const char* path; bool link; const char* parent; };   // path from a feature or style selector; parent: link parent element
static const vector<Carrier>& CAR() { static const vector<Carrier> v = {
  {"NetworkLink/Link/href", true, "NetworkLink"}, {"NetworkLink/Url/href", true, "NetworkLink"}, {"GroundOverlay/Icon/href", true, "GroundOverlay"}, {"ScreenOverlay/Icon/href", true, "ScreenOverlay"}, {"PhotoOverlay/Icon/href", true, "PhotoOverlay"},
  {"Style/IconStyle/Icon/href", true, "IconStyle"}, {"Style/ListStyle/ItemIcon/href", true, "ItemIcon"}, {"Placemark/Model/Link/href", true, "Model"}, {"Placemark/Model/ResourceMap/Alias/targetHref", true, "Model"},
  {"Placemark/styleUrl", true, ""}, {"StyleMap/Pair/styleUrl", true, ""}, {"Placemark/ExtendedData/SchemaData/@schemaUrl", true, ""}, {"gx:Tour/gx:Playlist/gx:SoundCue/href", true, ""},
  {"Placemark/MultiGeometry/MultiGeometry/Model/Link/href", true, "Model"}, {"Placemark/Style/IconStyle/Icon/href", true, "IconStyle"}, {"Folder/styleUrl", true, ""}, {"Placemark/StyleMap/Pair/Style/ListStyle/ItemIcon/href", true, "ItemIcon"}, {"NetworkLink/styleUrl", true, "NetworkLink"}, {"GroundOverlay/styleUrl", true, "GroundOverlay"},
  {"Placemark/Model/ResourceMap/Alias/sourceHref", false, "Model"}, {"Placemark/description", false, ""}, {"Placemark/name", false, ""}, {"Placemark/atom:link/@href", false, ""}, {"Placemark/ExtendedData/Data/value", false, ""}, {"Placemark/u:x/href", false, ""}, {"Placemark/address", false, ""}, {"NetworkLink/name", false, "NetworkLink"}, {"Style/IconStyle/scale", false, "IconStyle"}, {"ScreenOverlay/Icon/x", false, "ScreenOverlay"}, {"Placemark/Model/Link/viewFormat", false, "Model"}, {"Style/BalloonStyle/text", false, ""}}; return v; }
static Node carrier(const Carrier& c, const string& v) { string p = c.path; size_t a = p.find("/@"); if (a == string::npos) return leaf(p, v); string at = p.substr(a + 2); p.erase(a); Node n = leaf(p, ""); Node* d = &n; while (!d->kid.empty()) d = &d->kid.back(); d->attr[at] = v; return n; }
static string decl(Node n) { n.attr["xmlns"] = "http://www.opengis.net/kml/2.2"; n.attr["xmlns:gx"] = "http://www.google.com/kml/ext/2.2"; n.attr["xmlns:atom"] = "http://www.w3.org/2005/Atom"; n.attr["xmlns:u"] = "urn:u"; return xn::write(n); }
static Node wrap(Run& r, const Node& a) { Node k("kml"); switch (r.pick(4)) { case 0: { Node d("Document"); d.kid = a.kid; k.add(d); return k; } case 1: { Node d("Document"), f("Folder"); f.kid = a.kid; d.add(f); k.add(d); return k; } case 2: { Node d("Document"); d.kid = a.kid; return d; } default: { Node u("NetworkLinkControl"), up("Update"), c("Create"), d("Document"); d.attr["targetId"] = "x"; d.kid = a.kid; up.add(Node("targetHref", "t.kml")); c.add(d); up.add(c); u.add(up); k.add(u); return k; } } }
typedef kmlengine::href_vector_t HV; typedef kmlengine::ElementVector EV;
static string show(const HV& v) { string o; for (auto& s : v) o += "[" + s + "]"; return o; }
static string types(const EV& v) { string o; for (auto& e : v) o += string(kmldom::Xsd::GetSchema()->ElementName(e->Type())) + " "; return o; }
static void judge(Run& r, const string& kml, const HV& want, const HV& rel, const string& parents) {
  HV got(1, "before"), w = want; w.insert(w.begin(), "before"); r.nontrivial(); r.step(); r.check(kmlengine::GetLinks(kml, &got), "links:failed", kml); r.eq(show(w), show(got), "links:all", kml); got.assign(1, "before"); w = rel; w.insert(w.begin(), "before"); r.check(kmlengine::GetRelativeLinks(kml, &got), "links:failed", kml); r.eq(show(w), show(got), "links:relative", kml); EV ev; r.check(kmlengine::GetLinkParents(kml, &ev), "links:failed", kml); r.eq(parents, types(ev), "links:parents", kml); kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromParse(kml, NULL); r.check(f != NULL, "links:file", kml); r.eq(parents, types(f->get_link_parent_vector()), "links:file-parents", kml); std::set<const void*> seen; for (auto& e : f->get_link_parent_vector()) { r.check(seen.insert(e.get()).second, "links:parent-twice", kml); kmldom::ElementPtr top = e; while (top->GetParent()) top = top->GetParent(); r.check(top == f->get_root(), "links:parent-outside", kml); } r.state(show(want) + parents);
}
// Every sequence of carriers with every reference for one of them.
static void docs(Run& r) { int n = 1 + r.pick(thorough ? 3 : 2); Node all("all"); HV want, rel; string parents; for (int i = 0; i < n; ++i) { const Carrier& c = CAR()[r.pick(CAR().size())]; const L& l = LINKS()[i ? (i * 3) % LINKS().size() : (size_t)r.pick(LINKS().size())]; all.add(carrier(c, l.v)); if (c.link) { want.push_back(l.v); if (l.rel) rel.push_back(l.v); } if (*c.parent) parents += string(c.parent) + " "; } int styles = 0; for (auto& x : all.kid) styles += x.name.compare(0, 5, "Style") == 0; Node w = wrap(r, all); if (styles > 1 && w.name == "kml" && w.kid[0].name == "Document" && w.kid[0].kid.size() == 1 && w.kid[0].kid[0].name == "Folder") r.prune(); judge(r, decl(w), want, rel, parents); }
// One element with several references.
static void rich(Run& r) {
  Node p("Placemark"); HV want; string parents; auto use = [&](const string& v) { want.push_back(v); return v; };
  if (r.flip()) p.add(Node("styleUrl", use("#s"))); if (r.flip()) { Node s("Style"), i("IconStyle"), ic("Icon"), ls("ListStyle"); parents += "IconStyle "; ic.add(Node("href", use("i.png"))); i.add(ic); s.add(i); int k = r.pick(3); for (int j = 0; j < k; ++j) { Node t("ItemIcon"); parents += "ItemIcon "; t.add(Node("href", use("t" + num(j) + ".png"))); ls.add(t); } s.add(ls); p.add(s); }
  if (r.flip()) { Node e("ExtendedData"); int k = 1 + r.pick(2); for (int j = 0; j < k; ++j) { Node s("SchemaData"); if (r.flip()) s.attr["schemaUrl"] = use("#d" + num(j)); Node v("SimpleData", "http://not/a/link"); v.attr["name"] = "href"; s.add(v); e.add(s); } p.add(e); }
  if (r.flip()) { Node m("Model"), rm("ResourceMap"), l("Link"); parents += "Model "; int first = r.pick(2); l.add(Node("href", "m.dae")); if (first) { use("m.dae"); m.add(l); } int k = r.pick(3); for (int j = 0; j < k; ++j) { Node a("Alias"); bool sf = r.flip(); if (sf) a.add(Node("sourceHref", "src.jpg")); a.add(Node("targetHref", use("dst" + num(j)))); if (!sf) a.add(Node("sourceHref", "src.jpg")); rm.add(a); } m.add(rm); if (!first) { use("m.dae"); m.add(l); } p.add(m); }
  Node all("all"); all.add(p); Node nl("NetworkLink"); parents += "NetworkLink "; if (r.flip()) { Node l("Link"); if (r.flip()) l.add(Node("href", use("same"))); nl.add(l); } if (r.flip()) nl.add(Node("styleUrl", use("same"))); all.add(nl); HV rel; for (auto& w : want) if (w[0] != '#') rel.push_back(w); judge(r, decl(wrap(r, all)), want, rel, parents);
}
// Documents cut or broken at every byte are errors.
static void broken(Run& r) { Node a("all"), k("kml"), d("Document"); d.add(carrier(CAR()[0], "a.kml")); d.add(carrier(CAR()[5], "b.png")); k.add(d); string kml = xn::write(k); size_t at = r.pick(kml.size()); string s = kml; switch (r.pick(3)) { case 0: s.erase(at); break; case 1: s[at] = '<'; break; default: s.insert(at, "&u;"); } Node t; if (xn::read(s, &t)) r.prune(); r.nontrivial(); r.step(); HV v; EV e; r.check(!kmlengine::GetLinks(s, &v), "links:malformed", s); v.clear(); r.check(!kmlengine::GetRelativeLinks(s, &v) && v.empty(), "links:malformed", s); r.check(!kmlengine::GetLinkParents(s, &e), "links:malformed", s); r.check(!kmlengine::GetLinks(kml, NULL) && !kmlengine::GetRelativeLinks(kml, NULL) && !kmlengine::GetLinkParents(kml, NULL), "links:null", ""); }
// Accessors of the link of a link parent.
static void accessors(Run& r) {
  kmldom::KmlFactory* F = kmldom::KmlFactory::GetFactory(); string v = r.of({string(""), string("a.kml"), string("http://h/a")}); int present = r.pick(3), kind = r.pick(8); string got = "before"; bool ok = false; auto link = [&]() { kmldom::LinkPtr l = F->CreateLink(); if (present == 2) l->set_href(v); return l; }; auto icon = [&]() { kmldom::IconPtr l = F->CreateIcon(); if (present == 2) l->set_href(v); return l; }; r.nontrivial(); r.step();
  switch (kind) { case 0: { kmldom::NetworkLinkPtr n = F->CreateNetworkLink(); if (present) n->set_link(link()); ok = kmlengine::GetLinkParentHref(n, &got); r.check(!kmlengine::GetLinkParentHref(n, NULL), "links:access-null", ""); break; } case 1: { kmldom::ModelPtr n = F->CreateModel(); if (present) n->set_link(link()); ok = kmlengine::GetLinkParentHref(n, &got); break; } case 2: { kmldom::GroundOverlayPtr n = F->CreateGroundOverlay(); if (present) n->set_icon(icon()); ok = kmlengine::GetIconParentHref(n, &got); break; } case 3: { kmldom::ScreenOverlayPtr n = F->CreateScreenOverlay(); if (present) n->set_icon(icon()); ok = kmlengine::GetIconParentHref(n, &got); break; } case 4: { kmldom::PhotoOverlayPtr n = F->CreatePhotoOverlay(); if (present) n->set_icon(icon()); ok = kmlengine::GetIconParentHref(n, &got); break; } case 5: { kmldom::IconStylePtr n = F->CreateIconStyle(); if (present) { kmldom::IconStyleIconPtr l = F->CreateIconStyleIcon(); if (present == 2) l->set_href(v); n->set_icon(l); } ok = kmlengine::GetIconParentHref(n, &got); break; } case 6: { kmldom::ItemIconPtr l = F->CreateItemIcon(); if (present == 2) l->set_href(v); ok = kmlengine::GetHref(l, &got); break; } default: { kmldom::LinkPtr l; if (present) l = link(); ok = kmlengine::GetHref(l, &got); r.check(!kmlengine::GetHref(l, NULL), "links:access-null", ""); } }
  r.check(ok == (present == 2), "links:access", num(kind) + "," + num(present)); r.eq(present == 2 ? v : "before", got, "links:access", num(kind));
}
class Net : public kmlbase::NetFetcher { public: virtual bool FetchUrl(const string& u, string* d) const { log.push_back(u); auto i = web.find(u); if (i == web.end()) return false; *d = i->second; return true; } std::map<string, string> web; mutable vector<string> log; };
// Fetching through the document's own cache: relative to the document.
static void fetch(Run& r) {
  struct B { const char* base; const char* ref; const char* url; }; static const vector<B> T = {{"http://h/d/m.kml", "a.kml", "http://h/d/a.kml"}, {"http://h/d/m.kml", "../a.kml", "http://h/a.kml"}, {"http://h/d/m.kml", "/a.kml", "http://h/a.kml"}, {"http://h/d/m.kml", "http://k/a.kml", "http://k/a.kml"}, {"http://h/d/m.kml", "a.kml#f", "http://h/d/a.kml"}, {"http://h/d/z.kmz/doc.kml", "in.kml", "in.kml"}, {"http://h/d/z.kmz/doc.kml", "../out.kml", "http://h/d/out.kml"}, {"http://h/d/z.kmz/doc.kml", "gone.kml", ""}, {"http://h/d/m.kml", "gone.kml", ""}, {"http://h/d/m.kml", "a b", ""}};
  const B& b = r.of(T); int what = r.pick(3); string content = "<Placemark><name>" + string(b.ref[0] ? "x" : "") + "</name></Placemark>"; Node k("kml"), d("Document"), n(what == 0 ? "NetworkLink" : "GroundOverlay"), l(what == 0 ? "Link" : "Icon"); l.add(Node("href", b.ref)); n.add(l); d.add(n); k.add(d); string doc = xn::write(k); Net net; net.web["http://h/d/m.kml"] = doc; net.web["http://h/d/z.kmz"] = zipmk::make({zipmk::E("doc.kml", doc), zipmk::E("in.kml", "<Placemark id=\"in\"/>")}); for (auto u : {"http://h/d/a.kml", "http://h/a.kml", "http://k/a.kml", "http://h/d/out.kml"}) net.web[u] = "<Placemark id=\"" + num((int)strlen(u)) + "\"/>"; kmlengine::KmlCache cache(&net, 5); kmlengine::KmlFilePtr f = cache.FetchKmlAbsolute(b.base); r.nontrivial(); r.step(); r.check(f != NULL, "links:fetch-base", b.base); string want = !*b.url ? "" : string(b.url) == "in.kml" ? "<Placemark id=\"in\"/>" : net.web[b.url]; kmldom::ElementPtr el = kmldom::AsDocument(kmldom::AsKml(f->get_root())->get_feature())->get_feature_array_at(0);
  if (what == 0) { kmlengine::KmlFilePtr g = kmlengine::FetchLink(f, kmldom::AsNetworkLink(el)); r.check((g != NULL) == !want.empty(), "links:fetch-link", string(b.base) + " " + b.ref); if (g) r.eq(want, kmldom::SerializeRaw(g->get_root()), "links:fetch-link", b.ref); } else { string data = "before"; bool ok = kmlengine::FetchIcon(f, kmldom::AsOverlay(el), &data); r.check(ok == !want.empty(), "links:fetch-icon", string(b.base) + " " + b.ref); if (ok) r.eq(want, data, "links:fetch-icon", b.ref); }
  if (what == 2) { kmldom::KmlFactory* F = kmldom::KmlFactory::GetFactory(); string data; r.check(kmlengine::FetchLink(f, F->CreateNetworkLink()) == NULL && !kmlengine::FetchIcon(f, F->CreateGroundOverlay(), &data), "links:fetch-none", ""); kmlengine::KmlFilePtr alone = kmlengine::KmlFile::CreateFromParse(doc, NULL); r.check(!kmlengine::FetchIcon(alone, kmldom::AsOverlay(el), &data), "links:fetch-no-cache", ""); }
}
// Archive check: the missing list is exactly the relative references without an entry.
static void archive(Run& r) {
  int n = 1 + r.pick(thorough ? 3 : 2); Node d("Document"), k("kml"); vector<string> refs; for (int i = 0; i < n; ++i) { const Carrier& c = CAR()[r.of({0, 5, 8, 9, 11, 20})]; string v = r.of({string("a.png"), string("s/b.png"), string("s/b.png#x"), string("#f"), string("http://h/a.png"), string("//h/a.png"), string("c d"), string("e:f")}); d.add(carrier(c, v)); if (c.link) refs.push_back(v); } k.add(d); int have = r.pick(8); vector<zipmk::Entry> es; es.push_back(zipmk::E("doc.kml", xn::write(k))); std::set<string> names; const char* N[] = {"a.png", "s/b.png", "c d"}; for (int i = 0; i < 3; ++i) if (have >> i & 1) { es.push_back(zipmk::E(N[i], i == 1 ? "" : "data", i ? 8 : 0)); names.insert(N[i]); } HV want; for (auto& v : refs) { string p = v.substr(0, v.find('#')); if (p.empty() || p.find(':') != string::npos || p.compare(0, 2, "//") == 0) continue; if (!names.count(p)) want.push_back(v); } std::unique_ptr<kmlengine::KmzFile> z(kmlengine::KmzFile::OpenFromString(zipmk::make(es))); r.nontrivial(); r.step(); r.check(z.get() != NULL, "links:archive", ""); HV got(1, "before"); bool ok = kmlconvenience::KmzCheckLinks(*z, &got); want.insert(want.begin(), "before"); r.eq(show(want), show(got), "links:archive-missing", es[0].data); r.check(ok == (want.size() == 1), "links:archive-result", es[0].data); r.check(kmlconvenience::KmzCheckLinks(*z, NULL) == ok, "links:archive-null", "");
  if (n == 1) { std::unique_ptr<kmlengine::KmzFile> y(kmlengine::KmzFile::OpenFromString(zipmk::make({zipmk::E("a.png", "x")}))); r.check(y.get() && !kmlconvenience::KmzCheckLinks(*y, NULL), "links:archive-no-kml", ""); y.reset(kmlengine::KmzFile::OpenFromString(zipmk::make({zipmk::E("doc.kml", "<kml><Doc")}))); r.check(y.get() && !kmlconvenience::KmzCheckLinks(*y, &got), "links:archive-malformed", ""); }
}
// Many links, long links.
static void scale(Run& r) {
  int n = r.of({8, 17, 33, 65, 129, 257, 1025}), how = r.pick(4), len = r.of({1, 250, 5000}); Node all("all"); HV want, rel; string parents; for (int i = 0; i < n; ++i) { const Carrier& c = CAR()[how == 0 ? 0 : how == 1 ? 5 : how == 2 ? 9 : i % CAR().size()]; string v = (i % 5 == 3 ? "http://h/" : "d/") + num(i) + string(n > 300 ? 1 : len, 'l') + ".x"; all.add(carrier(c, v)); if (c.link) { want.push_back(v); if (i % 5 != 3) rel.push_back(v); } if (*c.parent) parents += string(c.parent) + " "; } string x = decl(wrap(r, all)); if (how % 2 && x.find("<Document><Folder>") != string::npos) r.prune(); /* a folder has one style */ judge(r, x, want, rel, parents);
}
void mc_setup() {
  rule("documents of up to 1025 links of up to 5000 characters; 31 positions (19 of references, 12 of look-alikes) in sequences of 1 to 2 (3 thorough) with 10 reference forms, in 4 kinds of document; elements with several references in both orders; a document cut or corrupted at every byte; every accessor; fetching relative to documents and archives; archives with every subset of the files referenced; GetLinks, GetRelativeLinks, GetLinkParents, the link parents of a KmlFile and KmzCheckLinks compared with the references placed");
  assume("a Folder has at most one style selector; references at positions KML does not allow, in balloon text and in attributes other than schemaUrl are not links");
  add("scale", scale);
  add("documents", docs); add("elements", rich); add("broken", broken, BOTH, 1); add("access", accessors, BOTH, 1); add("fetch", fetch, BOTH, 1); add("archive", archive);
}
