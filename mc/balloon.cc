// P16: entity expansion and balloons.
#include "domgen.h"
#include "kml/engine/entity_mapper.h"
#include "kml/engine/feature_balloon.h"
#include "kml/engine/kml_file.h"
#include "kml/base/string_util.h"
#include <algorithm>
#include <set>
using namespace mc; using namespace dg; using kmlbase::StringMap;

static string once(const string& in, const StringMap& m, const string& st, const string& en) {  // one pass, left to right
  string o; for (size_t i = 0; i < in.size();) { bool hit = false; for (auto& k : m) { string c = st + k.first + en; if (!c.empty() && in.compare(i, c.size(), c) == 0) { o += k.second; i += c.size(); hit = true; break; } } if (!hit) o += in[i++]; } return o;
}
static std::set<string> accepted(const string& in, const StringMap& m, const string& st, const string& en) {
  std::set<string> s; s.insert(once(in, m, st, en)); vector<string> k; for (auto& x : m) k.push_back(x.first); std::sort(k.begin(), k.end()); do { string t = in; for (auto& x : k) { StringMap one; one[x] = m.at(x); t = once(t, one, st, en); } s.insert(t); } while (std::next_permutation(k.begin(), k.end())); return s;
}
static void expand(Run& r) {
  static const vector<string> T = {"$[a]", "$[b]", "$[", "]", "a", "b", "$", "x"}, V = {"", "A", "aa", "$[a]", "]", "$[b", "$"}; int n = r.pick(thorough ? 6 : 5); string in; StringMap m; int k = r.pick(3); if (k > 0) m["a"] = r.of(V); if (k > 1) m["b"] = r.of(V); for (int i = 0; i < n; ++i) in += r.of(T); r.nontrivial(); string got = kmlengine::CreateExpandedEntities(in, m); r.step(); std::set<string> ok = accepted(in, m, "$[", "]"); r.check(ok.count(got) != 0, "balloon:expand", in + " got=" + got + " want=" + *ok.begin()); if (ok.size() == 1) r.state(got);
}
// General delimiters, and keys that are prefixes of each other.
static void delims(Run& r) {
  static const vector<string> D = {"$[", "{{", "%", "", "<", "ab"}, E = {"]", "}}", "%", "", "/>", "b"}; static const vector<string> K = {"a", "ab", "a/b", "", "b"}; int d = r.pick((int)D.size()), e = r.pick((int)E.size()); StringMap m; int n = 1 + r.pick(2); for (int i = 0; i < n; ++i) m[r.of(K)] = r.of({string("Z"), string(""), string("YY")}); string in; int l = r.pick(thorough ? 4 : 3); for (int i = 0; i < l; ++i) { int w = r.pick(4); in += w == 0 ? D[d] + K[0] + E[e] : w == 1 ? D[d] + K[1] + E[e] : w == 2 ? D[d] + K[2] + E[e] : "q"; } r.nontrivial(); string got = kmlbase::CreateExpandedStrings(in, m, D[d], E[e]); std::set<string> ok = accepted(in, m, D[d], E[e]); r.step(); r.check(ok.count(got) != 0, "balloon:expand-delims", D[d] + "|" + E[e] + " " + in + " got=" + got + " want=" + *ok.begin());
}
static string esc2(const string& s) { return xn::esc(s); }
struct Data { string name, disp, value; bool hasName, hasDisp; };
struct Sd { int schema; vector<std::pair<string, string>> d; };  // 0 none, 1 S, 2 T, 3 unknown
struct Model { int kind; bool id, tid, name, addr, snip, desc; string descText; vector<Data> data; vector<Sd> sd; bool ed; int style; };
static const char* SCHEMA = "<Schema name=\"SN\" id=\"s\"><SimpleField type=\"string\" name=\"f\"><displayName>Eff</displayName></SimpleField><SimpleField type=\"int\" name=\"g\"/></Schema><Schema name=\"TN\" id=\"t\"><SimpleField type=\"string\" name=\"h\"><displayName>Aitch</displayName></SimpleField><SimpleField type=\"string\" name=\"f\"/><SimpleField type=\"string\" name=\"k\"><displayName></displayName></SimpleField></Schema>";
static const vector<string>& universe() { static const vector<string> u = {"id", "targetId", "name", "address", "Snippet", "description", "p", "p/displayName", "q", "q/displayName", "SN/f", "SN/g", "SN/z", "SN/f/displayName", "SN/g/displayName", "TN/f", "TN/h", "TN/g", "TN/z", "TN/h/displayName", "TN/f/displayName", "TN/k/displayName", "/f", "/g", "/h", "/z", "nope", "s/f", "visibility"}; return u; }
static string tpl() { string t = "T:"; for (auto& k : universe()) t += k + "=$[" + k + "],$[" + k + "]$[" + k + "];"; return t + "$[p$[q]"; }
static StringMap entities(const Model& m, vector<std::pair<string, string>>* rows) {
  StringMap e; if (m.id) e["id"] = "ID"; if (m.tid) e["targetId"] = "TID"; if (m.name) e["name"] = "N&N"; if (m.addr) e["address"] = "AD"; if (m.snip) e["Snippet"] = "SNIP"; if (m.desc) e["description"] = m.descText; if (m.ed) { for (auto& d : m.data) if (d.hasName) { e[d.name] = d.value; if (d.hasDisp) e[d.name + "/displayName"] = d.disp; rows->push_back({d.hasDisp ? d.disp : d.name, d.value}); }
    for (auto& s : m.sd) { string p = s.schema == 1 ? "SN/" : s.schema == 2 ? "TN/" : "/"; if (s.schema == 1) e["SN/f/displayName"] = "Eff"; if (s.schema == 2) e["TN/h/displayName"] = "Aitch", e["TN/k/displayName"] = ""; for (auto& x : s.d) { e[p + x.first] = x.second; string label = x.first; if (s.schema == 1 && x.first == "f") label = "SN:Eff"; if (s.schema == 1 && x.first == "g") label = "SN:g"; if (s.schema == 2 && x.first == "h") label = "TN:Aitch"; if (s.schema == 2 && x.first == "f") label = "TN:f"; rows->push_back({label, x.second}); } } }
  return e;
}
static string feature(const Model& m) {
  static const char* TAG[] = {"Placemark", "NetworkLink", "GroundOverlay", "Folder", "ScreenOverlay", "PhotoOverlay"}; string o = string("<") + TAG[m.kind] + (m.id ? " id=\"ID\"" : "") + (m.tid ? " targetId=\"TID\"" : "") + ">"; if (m.name) o += "<name>N&amp;N</name>"; if (m.addr) o += "<address>AD</address>"; if (m.snip) o += "<Snippet maxLines=\"1\">SNIP</Snippet>"; if (m.desc) o += "<description>" + esc2(m.descText) + "</description>"; string bs = "<Style><BalloonStyle><text>" + esc2(tpl()) + "</text></BalloonStyle></Style>";
  if (m.style == 1) o += bs; if (m.style == 2) o += "<styleUrl>#sh</styleUrl>"; if (m.style == 3) o += "<StyleMap><Pair><key>normal</key>" + bs + "</Pair></StyleMap>"; if (m.style == 4) o += "<StyleMap><Pair><key>highlight</key>" + bs + "</Pair></StyleMap>"; if (m.style == 5) o += "<Style><BalloonStyle><bgColor>ff00ff00</bgColor></BalloonStyle></Style>"; if (m.style == 6) o += "<Style><BalloonStyle><text></text></BalloonStyle></Style>"; if (m.style == 7) o += "<styleUrl>#sh</styleUrl><Style><BalloonStyle><text>over $[name]</text></BalloonStyle></Style>";
  if (m.ed) { o += "<ExtendedData>"; for (auto& d : m.data) { o += "<Data"; if (d.hasName) o += " name=\"" + d.name + "\""; o += ">"; if (d.hasDisp) o += "<displayName>" + d.disp + "</displayName>"; o += "<value>" + d.value + "</value></Data>"; } for (auto& s : m.sd) { o += "<SchemaData"; if (s.schema) o += string(" schemaUrl=\"") + (s.schema == 1 ? "#s" : s.schema == 2 ? "#t" : "#u") + "\""; o += ">"; for (auto& x : s.d) o += "<SimpleData name=\"" + x.first + "\">" + x.second + "</SimpleData>"; o += "</SchemaData>"; } o += "</ExtendedData>"; } return o + "</" + TAG[m.kind] + ">";
}
static void verify(Run& r, const Model& m) {
  string sh = "<Style id=\"sh\"><BalloonStyle><text>" + esc2(tpl()) + "</text></BalloonStyle></Style>", other = "<Placemark><name>other</name><ExtendedData><Data name=\"nope\"><value>1</value></Data></ExtendedData></Placemark>", doc = "<kml><Document>" + sh + SCHEMA + other + feature(m) + "</Document></kml>"; r.nontrivial(); r.say(doc); kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromString(doc); r.check(kf.get() != NULL, "balloon:load", doc); kmldom::DocumentPtr d = kmldom::AsDocument(kmldom::AsKml(kf->get_root())->get_feature()); kmldom::FeaturePtr f = d->get_feature_array_at(1); vector<std::pair<string, string>> rows; StringMap e = entities(m, &rows); string before = kmldom::SerializeRaw(d);
  StringMap em; kmlbase::StringPairVector av; kmlengine::EntityMapper mapper(kf, &em, &av); mapper.GetEntityFields(f); r.step(); string a, b; for (auto& x : e) a += x.first + "=" + x.second + "\n"; for (auto& x : em) b += x.first + "=" + x.second + "\n"; r.eq(a, b, "balloon:entities", feature(m)); a = b = ""; for (auto& x : rows) a += x.first + "=" + x.second + "\n"; for (auto& x : av) b += x.first + "=" + x.second + "\n"; r.eq(a, b, "balloon:rows", feature(m)); StringMap e2; kmlengine::EntityMapper m2(kf, &e2); m2.GetEntityFields(f); r.check(e2 == em, "balloon:entities-alone", feature(m));
  string want; bool t = m.style == 1 || m.style == 2 || m.style == 3; if (t) want = once(tpl(), e, "$[", "]"); else if (m.style == 6) want = ""; else if (m.style == 7) want = once("over $[name]", e, "$[", "]"); else { if (m.name) want += "<h3>N&N</h3><br/><br/>"; if (m.desc) want += once(m.descText, e, "$[", "]"); if (m.ed) { want += "\n<table border=\"1\">\n"; for (auto& x : rows) want += "<tr><td>" + x.first + "</td><td>" + x.second + "</tr>\n"; want += "</table>\n"; } }
  r.step(); string got = kmlengine::CreateBalloonText(kf, f); if (m.style == 6 && got != want) { /* empty text element: template or no template */ string alt; if (m.name) alt += "<h3>N&N</h3><br/><br/>"; if (m.desc) alt += once(m.descText, e, "$[", "]"); if (m.ed) { alt += "\n<table border=\"1\">\n"; for (auto& x : rows) alt += "<tr><td>" + x.first + "</td><td>" + x.second + "</tr>\n"; alt += "</table>\n"; } want = alt; } r.eq(want, got, "balloon:text", doc); r.eq(before, kmldom::SerializeRaw(d), "balloon:modified", doc); r.state(got);
}
static Model base() { Model m; m.kind = 0; m.id = m.tid = m.name = m.addr = m.snip = m.desc = m.ed = false; m.style = 0; return m; }
static void fields(Run& r) { Model m = base(); m.kind = r.pick(6); m.id = r.flip(); m.tid = r.flip(); m.name = r.flip(); m.addr = r.flip(); m.snip = r.flip(); int d = r.pick(3); m.desc = d != 0; m.descText = d == 1 ? "D" : "<b>$[name]</b>$[address]$[name]$[nope]"; m.style = r.pick(8); if (d == 2 && (m.style == 1 || m.style == 2 || m.style == 3)) { m.descText = "plain [x] $ &"; } verify(r, m); }
static void data(Run& r) { Model m = base(); m.ed = true; int s = r.pick(3); bool few = s == 2 && !thorough; m.name = few || r.flip(); m.desc = few || r.flip(); m.descText = "d $[p] $[SN/f] $[/f]"; m.style = r.pick(few ? 2 : 4); if (m.style) m.descText = "d"; int n = r.pick(few ? 2 : 3); for (int i = 0; i < n; ++i) { Data x; x.hasName = i ? true : r.flip(); x.name = i ? "q" : "p"; x.hasDisp = r.flip(); x.disp = x.hasDisp && r.flip() ? "" : "disp" + str(i); x.value = r.flip() ? "" : "v" + str(i); m.data.push_back(x); } for (int i = 0; i < s; ++i) { Sd x; x.schema = r.pick(4); int k = r.pick(i ? 4 : 6); if (k == 1) x.d = {{"f", "1"}}; if (k == 2) x.d = {{"h", "2"}, {"g", "3"}}; if (k == 3) x.d = {{"z", "4"}, {"f", "5"}}; if (k == 4) x.d = {{"g", ""}}; if (k == 5) x.d = {{"f", "6"}, {"g", "7"}, {"h", "8"}}; if (i && x.schema == m.sd[0].schema) r.prune(); if (i && x.schema % 3 == 0 && m.sd[0].schema % 3 == 0) r.prune(); m.sd.push_back(x); } verify(r, m); }
// Many entities, many references, long values.
static void scale(Run& r) {
  int n = r.of({5, 9, 17, 33, 65, 129, 257}), what = r.pick(3), len = r.of({1, 100, 5000}); string T, want, doc = "<Document><Schema name=\"S\" id=\"s\">", ed; for (int i = 0; i < n; ++i) doc += "<SimpleField type=\"string\" name=\"f" + str(i) + "\"/>"; doc += "</Schema>"; if (what) ed += what == 2 ? "<SchemaData schemaUrl=\"#s\">" : ""; string V(len, 'v');
  for (int i = 0; i < n; ++i) { string k = (what == 2 ? "S/f" : "d") + str(i), v = "<" + str(i) + ">" + V; T += "[$[" + k + "]]$"; want += "[" + v + "]$"; if (what == 2) ed += "<SimpleData name=\"f" + str(i) + "\">" + esc2(v) + "</SimpleData>"; else ed += "<Data name=\"d" + str(i) + "\"><value>" + esc2(v) + "</value></Data>"; } if (what == 2) ed += "</SchemaData>"; for (int i = 0; i < n; ++i) { T += "$[d" + str(n) + "]"; want += "$[d" + str(n) + "]"; }
  if (what == 1) { T = want = ""; for (int i = 0; i < n; ++i) { T += "$[d0]x$[name]"; want += "<0>" + V + "xN"; } }
  doc += "<Placemark><name>N</name><Style><BalloonStyle><text>" + esc2(T) + "</text></BalloonStyle></Style><ExtendedData>" + ed + "</ExtendedData></Placemark></Document>"; kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromString(doc); r.check(kf.get() != NULL, "balloon:load", doc.substr(0, 200)); r.nontrivial(); r.step(); r.eq(want, kmlengine::CreateBalloonText(kf, kmldom::AsDocument(kf->get_root())->get_feature_array_at(0)), "balloon:scale", str(n));
}
void mc_setup() {
  rule("features of up to 257 data or schema entries with templates of as many references; every template of up to 4 (5 thorough) of 8 pieces (references, broken references, delimiters) with every map of up to two entities over 7 values; delimiters and keys containing each other; every subset of a feature's fields on 6 kinds of feature with 8 balloon styles; up to two Data and two SchemaData (with, without and with an unknown schema) with fields in and out of the schema; expansion, entities, table rows and balloon text against a reference");
  assume("where a value inserted into the text itself completes a reference, expanding it further or not is accepted; names and table values contain no references");
  add("expand", expand); add("delims", delims); add("fields", fields); add("data", data); add("scale", scale);
}
