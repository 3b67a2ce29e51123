// P12: updates change exactly the targeted objects.
#include "domgen.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/update.h"
using namespace mc; using namespace dg;

// Reference document model.
struct Obj { string type, id; std::map<string, string> f; vector<int> kid; int parent = -1; string geom; string geomid; string width; string styleid; string data; };
struct Doc { vector<Obj> o; int root = -1; std::map<string, int> ids; bool kml; };
static int mk(Doc& d, const string& t, const string& id, int parent) { Obj o; o.type = t; o.id = id; o.parent = parent; d.o.push_back(o); int n = d.o.size() - 1; if (parent >= 0) d.o[parent].kid.push_back(n); if (!id.empty()) d.ids[id] = n; return n; }
static Node geom(const string& g, const string& id) { size_t c = g.find(':'); Node n(g.substr(0, c)); if (!id.empty()) n.attr["id"] = id; n.add(Node("coordinates", g.substr(c + 1))); return n; }
static Node xml(const Doc& d, int n) {
  const Obj& o = d.o[n]; Node x(o.type); if (!o.id.empty()) x.attr["id"] = o.id;
  for (const char* k : {"name", "visibility", "open", "address", "description", "styleUrl"}) { auto i = o.f.find(k); if (i != o.f.end()) x.add(Node(k, i->second)); }
  if (!o.width.empty()) { Node s("Style"); if (!o.styleid.empty()) s.attr["id"] = o.styleid; Node& l = s.add(Node("LineStyle")); l.add(Node("width", o.width)); x.add(s); }
  if (!o.data.empty()) { Node e("ExtendedData"); Node dt("Data"); dt.attr["name"] = "k"; dt.add(Node("value", o.data)); e.add(dt); x.add(e); }
  if (!o.geom.empty()) x.add(geom(o.geom, o.geomid)); for (int k : o.kid) x.add(xml(d, k)); return x;
}
static Node whole(const Doc& d) { if (!d.kml) return xml(d, d.root); Node k("kml"); if (d.root >= 0) k.add(xml(d, d.root)); return k; }
static Doc base(int shape) {
  Doc d; d.kml = shape != 2; int r = mk(d, "Document", "d", -1); d.root = r; d.o[r].f["name"] = "D";
  int f = mk(d, "Folder", "f", r); d.o[f].f["name"] = "F"; int p = mk(d, "Placemark", "p", f); d.o[p].f["name"] = "P"; d.o[p].f["visibility"] = "0"; d.o[p].geom = "Point:1,1"; d.o[p].geomid = "pt"; int q = mk(d, "Placemark", "q", f); d.o[q].f["address"] = "A";
  mk(d, "Placemark", "", f); int rr = mk(d, "Placemark", "r", r); d.o[rr].width = "2"; d.o[rr].styleid = "st"; d.o[rr].data = "v"; if (shape == 1) { int g = mk(d, "Folder", "g", f); mk(d, "Placemark", "s", g); } else mk(d, "Folder", "g", r); return d;
}
struct Op { string xml; std::function<void(Doc&, const std::function<string(string)>&)> fn; };
static int find(Doc& d, const string& id) { auto i = d.ids.find(id); return id.empty() || i == d.ids.end() ? -1 : i->second; }
static void del(Doc& d, int n) { if (n < 0) return; int p = d.o[n].parent; if (p >= 0) { auto& k = d.o[p].kid; for (size_t i = 0; i < k.size(); ++i) if (k[i] == n) { k.erase(k.begin() + i); break; } } else if (d.root == n && d.kml) d.root = -1; }
typedef std::function<string(string)> Map;
static vector<Op> ops() {
  vector<Op> v; auto fld = [&](const string& type, const string& id, const string& k, const string& val) { v.push_back({"<Change><" + type + " targetId=\"" + id + "\"><" + k + ">" + val + "</" + k + "></" + type + "></Change>", [=](Doc& d, const Map& m) { int n = find(d, m(id)); if (n >= 0) d.o[n].f[k] = val; }}); };
  fld("Placemark", "p", "name", "N"); fld("Placemark", "q", "visibility", "0"); fld("Folder", "f", "open", "1"); fld("Document", "d", "description", "x"); fld("Placemark", "zz", "name", "N");
  v.push_back({"<Change><Placemark targetId=\"p\"><address>1</address><Point><coordinates>5,5</coordinates></Point></Placemark><Placemark targetId=\"r\"><LineString><coordinates>6,6</coordinates></LineString></Placemark></Change>", [](Doc& d, const Map& m) { int n = find(d, m("p")); if (n >= 0) { d.o[n].f["address"] = "1"; if (d.o[n].geom.substr(0, 6) != "Point:") d.o[n].geomid = ""; d.o[n].geom = "Point:5,5"; } n = find(d, m("r")); if (n >= 0) { if (d.o[n].geom.substr(0, 5) != "LineS") d.o[n].geomid = ""; d.o[n].geom = "LineString:6,6"; } }});
  v.push_back({"<Change><Point targetId=\"pt\"><coordinates>7,7</coordinates></Point></Change>", [](Doc& d, const Map& m) { if (m("pt") == "pt") for (auto& o : d.o) if (o.geomid == "pt") o.geom = "Point:7,7"; }});
  v.push_back({"<Change><Style targetId=\"st\"><LineStyle><width>9</width></LineStyle></Style><Placemark><name>none</name></Placemark></Change>", [](Doc& d, const Map& m) { if (m("st") == "st") for (auto& o : d.o) if (o.styleid == "st") o.width = "9"; }});
  v.push_back({"<Change><Placemark targetId=\"q\"><Style><LineStyle><width>3</width></LineStyle></Style><ExtendedData><Data name=\"k\"><value>w</value></Data></ExtendedData></Placemark></Change>", [](Doc& d, const Map& m) { int n = find(d, m("q")); if (n >= 0) { d.o[n].width = "3"; d.o[n].data = "w"; } }});
  auto add = [&](const string& type, const string& id, vector<string> kids) { string x = "<Create><" + type + " targetId=\"" + id + "\"><name>ignored</name>"; for (auto& k : kids) x += k == "F" ? "<Folder id=\"nf\"><name>nf</name><Placemark><name>in</name></Placemark></Folder>" : "<Placemark><name>" + k + "</name></Placemark>"; x += "</" + type + "></Create>"; v.push_back({x, [=](Doc& d, const Map& m) { int n = find(d, m(id)); if (n < 0 || (d.o[n].type != "Folder" && d.o[n].type != "Document")) return; for (auto& k : kids) { int c = mk(d, k == "F" ? "Folder" : "Placemark", "", n); d.o[c].f["name"] = k == "F" ? "nf" : k; if (k == "F") { d.o[c].id = "nf"; int e = mk(d, "Placemark", "", c); d.o[e].f["name"] = "in"; } } }}); };
  add("Folder", "f", {"a", "b"}); add("Document", "d", {"F"}); add("Folder", "g", {"c"}); add("Folder", "p", {"x"}); add("Folder", "none", {"x"}); add("Folder", "f", {});
  auto dl = [&](vector<std::pair<string, string>> t) { string x = "<Delete>"; for (auto& k : t) x += "<" + k.first + (k.second.empty() ? "" : " targetId=\"" + k.second + "\"") + "/>"; x += "</Delete>"; v.push_back({x, [=](Doc& d, const Map& m) { for (auto& k : t) if (!k.second.empty()) del(d, find(d, m(k.second))); }}); };
  dl({{"Placemark", "p"}}); dl({{"Placemark", "r"}}); dl({{"Folder", "f"}}); dl({{"Folder", "g"}}); dl({{"Document", "d"}}); dl({{"Placemark", "q"}, {"Placemark", "p"}}); dl({{"Placemark", "zz"}, {"Placemark", ""}, {"Folder", "g"}});
  // Several containers in one create, several objects in one change.
  v.push_back({"<Create><Folder targetId=\"g\"><Placemark><name>m</name></Placemark></Folder><Folder targetId=\"zz\"><Placemark/></Folder><Document targetId=\"d\"><Placemark><name>o</name></Placemark></Document></Create>", [](Doc& d, const Map& m) { int n = find(d, m("g")); if (n >= 0 && d.o[n].type != "Placemark") { int c = mk(d, "Placemark", "", n); d.o[c].f["name"] = "m"; } n = find(d, m("d")); if (n >= 0 && d.o[n].type != "Placemark") { int c = mk(d, "Placemark", "", n); d.o[c].f["name"] = "o"; } }});
  return v;
}
static bool eqn(const Node& a, const Node& b) { if (a.name != b.name || a.attr != b.attr || a.kid.size() != b.kid.size()) return false; string x = a.text, y = b.text; while (!x.empty() && isspace((unsigned char)x.back())) x.pop_back(); while (!y.empty() && isspace((unsigned char)y.back())) y.pop_back(); if (x != y) { if (a.name != "coordinates") return false; while (!y.empty() && isspace((unsigned char)y[0])) y.erase(0, 1); if (y != x && y != x + ",0") return false; } for (size_t i = 0; i < a.kid.size(); ++i) if (!eqn(a.kid[i], b.kid[i])) return false; return true; }
static void run(Run& r, int depth, bool maps, bool all_ways = true) {
  static const vector<Op> O = ops(); int shape = r.pick(all_ways ? 3 : 2), how = all_ways ? r.pick(2) : 0, split = all_ways ? r.pick(2) : 0, mapk = maps ? r.pick(4) : 0; Doc d = base(shape); string src = xn::write(whole(d)); kmlengine::KmlFilePtr file; if (how == 0) { string e; file = kmlengine::KmlFile::CreateFromParse(src, &e); } else file = kmlengine::KmlFile::CreateFromImport(kmldom::Parse(src, NULL)); r.check(file.get() != NULL, "update:file", src);
  kmlbase::StringMap sm; Map m = [](string s) { return s; }; const kmlbase::StringMap* pm = NULL; if (mapk == 1) { for (const char* k : {"d", "f", "p", "q", "r", "g", "pt", "st"}) sm[k] = k; pm = &sm; m = [&sm](string s) { return sm.count(s) ? sm[s] : string(); }; } if (mapk == 2) { sm["p"] = "q"; sm["q"] = "p"; sm["f"] = "g"; sm["g"] = "d"; sm["zz"] = "r"; pm = &sm; m = [&sm](string s) { return sm.count(s) ? sm[s] : string(); }; } if (mapk == 3) { pm = &sm; m = [](string) { return string(); }; }
  vector<int> seq; for (int i = 0; i < depth; ++i) { int k = r.pick(O.size() + 1); if (k == 0) break; seq.push_back(k - 1); } if (mapk == 2) for (int k : seq) { const string& x = O[k].xml; if (x.find("<Change><Folder") == 0 || x.find("<Change><Document") == 0) r.prune(); if (x.find("<Change>") == 0 && x.find("zz") != string::npos && x.find("Folder") != string::npos) r.prune(); }
  vector<string> upd; if (split) for (int k : seq) upd.push_back("<Update><targetHref>h</targetHref>" + O[k].xml + "</Update>"); else { string u = "<Update><targetHref>h</targetHref>"; for (int k : seq) u += O[k].xml; upd.push_back(u + "</Update>"); } r.nontrivial(); r.say(src); vector<kmldom::UpdatePtr> keep;
  size_t at = 0; for (auto& u : upd) { r.say(u); kmldom::UpdatePtr up = kmldom::AsUpdate(kmldom::Parse(u, NULL)); r.check(up.get() != NULL, "update:parse", u); string before = kmldom::SerializeRaw(up); if (mapk == 0 && how == 0) kmlengine::ProcessUpdate(up, file); else kmlengine::ProcessUpdateWithIdMap(up, pm, file); r.step(); r.eq(before, kmldom::SerializeRaw(up), "update:modifies-update", u); keep.push_back(up); if (split) O[seq[at++]].fn(d, m); else for (int k : seq) O[k].fn(d, m);
    string got = kmldom::SerializeRaw(file->get_root()), why; Node g; r.check(xn::read(got, &g, &why), "update:output", why); Node w = whole(d); r.check(eqn(w, g), "update:result", "after " + u + " on " + src + " want " + xn::write(w) + " got " + got); r.state(xn::write(w)); }
  if (!keep.empty()) { keep.clear(); file->get_root(); string s1 = kmldom::SerializeRaw(file->get_root()); r.check(!s1.empty(), "update:after-release", ""); }
}
// A change naming both id and targetId leaves the target's id alone.
static void both(Run& r) { int how = r.pick(2), n = r.pick(3); string src = "<Document><Placemark id=\"p\"><name>a</name></Placemark><Placemark id=\"q\"/></Document>"; string id = r.of({string("z"), string("q"), string("")}); kmlengine::KmlFilePtr f; string e; if (how) f = kmlengine::KmlFile::CreateFromImport(kmldom::Parse(src, NULL)); else f = kmlengine::KmlFile::CreateFromParse(src, &e); kmldom::UpdatePtr u = kmldom::AsUpdate(kmldom::Parse("<Update><Change><Placemark id=\"" + id + "\" targetId=\"p\">" + (n ? "<name>b</name>" : "") + "</Placemark></Change></Update>", NULL)); r.nontrivial(); r.step(); kmlengine::ProcessUpdate(u, f); r.eq(string("<Document><Placemark id=\"p\"><name>") + (n ? "b" : "a") + "</name></Placemark><Placemark id=\"q\"/></Document>", kmldom::SerializeRaw(f->get_root()), "update:changes-id", id); }
static void copy(Run& r) {  // CopyFeatures
  int a = r.pick(4), b = r.pick(4); bool ids = r.flip(); string s = "<Folder>", t = "<Document>"; for (int i = 0; i < a; ++i) s += string("<Placemark") + (ids ? " id=\"s" + str(i) + "\"" : "") + "><name>s" + str(i) + "</name></Placemark>"; for (int i = 0; i < b; ++i) t += "<Placemark><name>t" + str(i) + "</name></Placemark>"; s += "</Folder>"; kmldom::ContainerPtr S = kmldom::AsContainer(kmldom::Parse(s, NULL)), T = kmldom::AsContainer(kmldom::Parse(t + "</Document>", NULL)); string s0 = kmldom::SerializeRaw(S); kmlengine::CopyFeatures(S, T); r.nontrivial(); r.step(); r.eq(s0, kmldom::SerializeRaw(S), "update:copy-source", ""); r.eq((size_t)(a + b), T->get_feature_array_size(), "update:copy-count"); for (int i = 0; i < a + b; ++i) r.eq(i < b ? "t" + str(i) : "s" + str(i - b), T->get_feature_array_at(i)->get_name(), "update:copy-order"); for (int i = 0; i < a; ++i) { T->get_feature_array_at(b + i)->set_name("changed"); r.check(T->get_feature_array_at(b + i)->GetParent().get() == T.get() && (!ids || T->get_feature_array_at(b + i)->get_id() == "s" + str(i)), "update:copy-parent", ""); } r.eq(s0, kmldom::SerializeRaw(S), "update:copy-shares", "");
}
// A change of any kind of object, wherever it sits, sets exactly the field given.
static void kinds(Run& r) {
  const Class& c = all()[r.pick(all().size())]; vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex()) cx.push_back(i); if (cx.empty() || c.cls == "Change" || c.cls == "Create" || c.cls == "Delete" || c.cls == "Update") r.prune(); int k = r.of(cx);
  M kid(r.of(c.f[k].accept)), ch(*kid.c); bool has = false; for (auto& f : kid.c->f) has |= f.api == "targetid"; if (!has || kid.c->cls == "IconStyleIcon") r.prune(); kid.set("id", "t"); ch.set("targetid", "t"); int n = kid.c->f.size(), i = r.pick(n), j = r.pick(n); const Field &fi = kid.c->f[i], &fj = kid.c->f[j];
  if (fj.api == "id" || fj.api == "targetid" || fi.api == "id" || fi.api == "targetid" || fi.complex() || fj.complex()) r.prune(); if (!fi.scalar() || !fj.scalar()) r.prune();
  auto val = [&](const Field& f, int w) { V v = values(f, true); return (f.kind == STR || f.kind == ASTR || f.kind == TEXT) ? string(w ? "src" : "tgt") : v[w % v.size()]; }; kid.sc[i] = val(fi, 0); ch.sc[j] = val(fj, 1); M sib(c); int before = c.f[k].list() ? r.pick(2) : 0; M doc(c); if (before) { M o = kid; o.set("id", "o"); doc.ch[k].push_back(o); } doc.ch[k].push_back(kid);
  M wrapped = doc; ElementPtr root = to_dom(doc); kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromImport(root); r.check(f.get() != NULL, "update:file", c.cls); M up("Update"), cg("Change"); ElementPtr e = to_dom(ch); kmldom::UpdatePtr u = kmldom::KmlFactory::GetFactory()->CreateUpdate(); kmldom::ChangePtr q = kmldom::KmlFactory::GetFactory()->CreateChange(); q->add_object(kmldom::AsObject(e)); u->add_updateoperation(q);
  string ub = kmldom::SerializeRaw(u), why; r.nontrivial(); r.step(); r.say(kmldom::SerializeRaw(root) + " " + ub); kmlengine::ProcessUpdate(u, f); M want = doc; want.ch[k].back().sc[j] = val(fj, 1); want.ch[k].back().sc[i] = i == j ? val(fj, 1) : val(fi, 0); r.check(equals(want, f->get_root(), &why, true), "update:kind-change", why + " after " + ub + " giving " + kmldom::SerializeRaw(f->get_root())); r.eq(ub, kmldom::SerializeRaw(u), "update:modifies-update", ub);
}
// Every feature kind created in, and deleted from, every position of a container.
static void features(Run& r) {
  static const vector<string>& K = key("Folder").f[(size_t)[] { size_t i = 0; while (key("Folder").f[i].api != "feature") ++i; return i; }()].accept; const string& kind = r.of(K); string cont = r.of({string("Folder"), string("Document")}); int n = r.pick(4), what = r.pick(3), at = n ? r.pick(n) : 0; bool root = r.flip(); M m(cont); m.set("id", "c"); string s;
  vector<M> kids; for (int i = 0; i < n; ++i) { M x(i == at ? kind : string(K[i % K.size()])); x.set("id", "k" + str(i)); x.set("name", "n" + str(i)); kids.push_back(x); } for (auto& x : kids) m.add("feature", x); M top("Document"); top.set("id", "top"); top.add("feature", m); const M& doc = root ? m : top; if (what && !n) r.prune();
  kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromImport(to_dom(doc)); string u, tag = key(kind).tag; M want = m; size_t fi = 0; while (m.c->f[fi].api != "feature") ++fi;
  if (what == 0) { M x(kind); x.set("name", "new"); u = "<Create><" + cont + " targetId=\"c\">" + xn::write(to_xml(x)) + "</" + cont + "></Create>"; want.ch[fi].push_back(x); } else if (what == 1) { u = "<Delete><" + tag + " targetId=\"k" + str(at) + "\"/></Delete>"; want.ch[fi].erase(want.ch[fi].begin() + at); } else { u = "<Change><" + tag + " targetId=\"k" + str(at) + "\"><name>changed</name></" + tag + "></Change>"; want.ch[fi][at].set("name", "changed"); }
  kmldom::UpdatePtr up = kmldom::AsUpdate(kmldom::Parse("<Update><targetHref>h</targetHref>" + u + "</Update>", NULL)); r.check(up.get() != NULL, "update:parse", u); r.nontrivial(); r.step(); r.say(u); kmlengine::ProcessUpdate(up, f); string why; M w("Document"); w.set("id", "top"); w.add("feature", want); r.check(equals(root ? want : w, f->get_root(), &why, true), "update:features", why + " after " + u + " giving " + kmldom::SerializeRaw(f->get_root()));
}
// Long updates of long documents.
static void scale(Run& r) {
  int n = r.of({5, 9, 17, 33, 64, 65, 129, 257}), step = r.of({1, 2, 7}), how = r.pick(2); string src = "<kml><Document id=\"d\">", ch = "<Change>", cr = "<Create><Document targetId=\"d\">", de = "<Delete>"; string want = "<kml><Document id=\"d\">";
  for (int i = 0; i < n; ++i) { src += "<Placemark id=\"p" + str(i) + "\"><name>a" + str(i) + "</name></Placemark>"; if (i % step == 0) ch += "<Placemark targetId=\"p" + str(i) + "\"><name>b" + str(i) + "</name></Placemark>"; cr += "<Placemark><name>c" + str(i) + "</name></Placemark>"; if (i % 3 == 1) de += "<Placemark targetId=\"p" + str(i) + "\"/>"; else want += "<Placemark id=\"p" + str(i) + "\"><name>" + (i % step == 0 ? "b" : "a") + str(i) + "</name></Placemark>"; }
  for (int i = 0; i < n; ++i) want += "<Placemark><name>c" + str(i) + "</name></Placemark>"; src += "</Document></kml>"; want += "</Document></kml>"; ch += "</Change>"; cr += "</Document></Create>"; de += "</Delete>";
  kmlengine::KmlFilePtr f; string e; if (how) f = kmlengine::KmlFile::CreateFromImport(kmldom::Parse(src, NULL)); else f = kmlengine::KmlFile::CreateFromParse(src, &e); kmldom::UpdatePtr u = kmldom::AsUpdate(kmldom::Parse("<Update>" + ch + cr + de + "</Update>", NULL)); r.nontrivial(); r.step(); kmlengine::ProcessUpdate(u, f); r.eq(kmldom::SerializeRaw(f->get_root()), want, "update:scale", str(n));
}
void mc_setup() {
  rule("three documents (two with a kml root, one without; nested and empty folders), created by parse and by import; every sequence of up to 2 (3) update operations, and for two of the documents up to 3 (4) in one update, out of 23 (changes of fields, geometry, styles and data, creates of one or several features in folders, documents and non-containers, deletes of one or several features including the root, unknown and missing targets), in one update or one after another, without an id map; every object kind of the schema in every place that can hold it, changed in each scalar field; every feature kind created, changed and deleted at each position; updates of up to 257 operations; up to 2 operations with identity, permuting and empty id maps; result compared with an independent document model after every update");
  assume("a change has the type of its target; objects created by an update are not themselves targets; ids are unique");
  add("seq", [](Run& r) { run(r, thorough ? 3 : 2, false); }); add("deep", [](Run& r) { run(r, thorough ? 4 : 3, false, false); }); add("maps", [](Run& r) { run(r, 2, true); }); add("both", both); add("kinds", kinds, BOTH, 3); add("features", features); add("scale", scale); add("copy", copy);
}
