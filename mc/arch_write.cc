// P18: written archives read back exactly.
#include "core.h"
#include "zipmk.h"
#include "kml/base/zip_file.h"
#include "kml/base/file.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/kml_file.h"
#include "kml/dom.h"
#include <memory>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace mc; using std::string; using std::vector; using kmlbase::ZipFile; using kmlengine::KmzFile;
typedef std::pair<string, string> Ent;
static string slurp(const char* p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static string noise(size_t n) { string s(n, 0); uint32_t x = 12345; for (auto& c : s) { x = x * 1664525 + 1013904223; c = (char)(x >> 24); } return s; }
static const vector<string>& names() { static const vector<string> v = {"doc.kml", "a.kml", "files/b.png", "x y.txt", "\xc3\xa9.kml", "A.KML", "d/", "a.kml.txt", ".kml", "b/../c.kml", string(300, 'n') + ".kml", string(1023, 'm'), string(1024, 'k') + ".kml", "..", "a\\b.kml", "kml"}; return v; }
static const vector<string>& datas() { static const vector<string> v = {"", "a", string("\0\r\n\xff", 4), "<kml/>", string("PK\3\4PK\5\6", 8), noise(16383), noise(16384), noise(16385), string(70000, 'z'), noise(40000) + string(40000, 'q')}; return v; }
static string show(const vector<Ent>& v) { string s; for (auto& e : v) s += (e.first.size() > 30 ? e.first.substr(0, 5) + ".." + str(e.first.size()) : e.first) + ":" + str(e.second.size()) + "#" + str(fnv(e.second.data(), e.second.size())) + " "; return s; }
static bool ends(const string& s, const string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static void reread(Run& r, const vector<Ent>& want, const string& bytes, const char* file) {
  // Names may repeat: the first entry of a name is the one that is read.
  std::map<string, string> first; for (auto& e : want) first.insert(e); string def; bool hasDef = false; for (auto& e : want) if (ends(e.first, ".kml")) { def = e.first; hasDef = true; break; } string ctx = show(want);
  for (int how = 0; how < 2; ++how) {
    if (how && !file) break; std::unique_ptr<ZipFile> z(how ? ZipFile::OpenFromFile(file) : ZipFile::OpenFromString(bytes)); r.step(); if (want.empty()) { if (!z) continue; } r.check(z.get() != NULL, "archive:open", ctx); r.check(ZipFile::IsZipData(bytes) && KmzFile::IsKmz(bytes), "archive:recognised", ctx); vector<string> toc; r.check(z->GetToc(&toc), "archive:toc", ctx); string a, b; for (auto& e : want) a += e.first + "\n"; for (auto& t : toc) b += t + "\n"; r.eq(a, b, "archive:toc", ctx); r.check(z->GetToc(&toc) && toc.size() == 2 * want.size(), "archive:toc-appends", ctx);
    for (auto& e : first) { string out = "previous"; r.check(z->IsInToc(e.first), "archive:in-toc", e.first + " of " + ctx); r.check(z->GetEntry(e.first, &out), "archive:get", e.first.substr(0, 40) + " of " + ctx); r.check(out == e.second, "archive:bytes", e.first.substr(0, 40) + " of " + ctx); r.check(z->GetEntry(e.first, NULL), "archive:get-null", e.first.substr(0, 40) + " of " + ctx); }
    for (auto& n : names()) if (!first.count(n)) { string out = "previous"; r.check(!z->IsInToc(n) && !z->GetEntry(n, &out) && out == "previous", "archive:absent", n.substr(0, 40) + " of " + ctx); } r.check(!z->GetEntry("", NULL), "archive:absent", ctx); { int k = 0; for (auto& e : first) { if (++k > 6 || e.first.empty()) break; for (int how2 = 0; how2 < 3; ++how2) { string n = e.first; if (how2 == 0) n[n.size() - 1] ^= 1; else if (how2 == 1) n[n.size() / 2] ^= 1; else n.erase(n.size() - 1); if (first.count(n) || n.empty() || n.find('\0') != string::npos) continue; string o2 = "previous"; r.check(!z->IsInToc(n) && !z->GetEntry(n, &o2) && o2 == "previous", "archive:absent", "like " + n.substr(0, 40) + " of " + ctx); } } }
    string p = "?"; r.check(z->FindFirstOf(".kml", &p) == hasDef && (!hasDef || p == def), "archive:first-kml", ctx + " got " + p.substr(0, 40)); r.check(!z->FindFirstOf(".kml", NULL), "archive:first-null", ctx); p = "?"; bool png = false; for (auto& e : want) png |= ends(e.first, ".png"); r.check(z->FindFirstOf(".png", &p) == png, "archive:first-png", ctx); r.check(z->get_data() == bytes, "archive:raw", ctx); r.check(!z->AddEntry("x", "new"), "archive:add-to-read", ctx);
    kmlengine::KmzFilePtr k = how ? KmzFile::OpenFromFile(file) : KmzFile::OpenFromString(bytes); r.check(k.get() != NULL, "archive:kmz-open", ctx); string out, path; r.check(k->ReadKml(&out) == hasDef && (!hasDef || out == first[def]), "archive:read-kml", ctx); out.clear(); r.check(k->ReadKmlAndGetPath(&out, &path) == hasDef && (!hasDef || (path == def && out == first[def])), "archive:read-kml-path", ctx); r.check(!k->ReadKml(NULL), "archive:read-kml-null", ctx); vector<string> l(1, "before"); r.check(k->List(&l) && l.size() == want.size() + 1 && l[0] == "before", "archive:list", ctx); for (size_t i = 0; i < want.size(); ++i) r.check(l[i + 1] == want[i].first, "archive:list", ctx); for (auto& e : first) { out.clear(); r.check(k->ReadFile(e.first.c_str(), &out) && out == e.second, "archive:read-file", e.first.substr(0, 40)); } r.check(k->SaveToString(&out) && out == bytes && !k->SaveToString(NULL), "archive:save", ctx); r.check(!k->AddFile("x", "new"), "archive:add-to-read", ctx);
  }
  r.state(ctx);
}
static bool refused(const string& n) { return n == ".."; }
static void verify(Run& r, const vector<Ent>& in, bool kmz, bool explicitClose) {
  vector<Ent> want; r.nontrivial(); r.say(show(in)); const char* f = "w.kmz"; unlink(f); { std::unique_ptr<ZipFile> z; kmlengine::KmzFilePtr k; if (kmz) k = KmzFile::Create(f); else z.reset(ZipFile::Create(f)); r.check(kmz ? k.get() != NULL : z.get() != NULL, "archive:create", f); for (auto& e : in) { r.step(); bool ok = kmz ? k->AddFile(e.second, e.first) : z->AddEntry(e.second, e.first); bool should = !refused(e.first); r.check(ok == should, "archive:add", e.first.substr(0, 40)); if (ok) want.push_back(e); } (void)explicitClose; }
  string bytes = slurp(f), why; vector<zipmk::Entry> got; r.check(zipmk::read(bytes, &got, &why), "archive:invalid", show(in) + " " + why); vector<Ent> g; for (auto& e : got) g.push_back({e.name, e.data}); r.eq(show(want), show(g), "archive:written", show(in)); for (size_t i = 0; i < want.size(); ++i) r.check(want[i] == g[i], "archive:written", show(in)); reread(r, want, bytes, f); unlink(f);
}
static Ent pickEnt(Run& r, bool rich) { Ent e; if (rich) { e.first = r.of(names()); e.second = r.of(datas()); } else { e.first = r.of({string("doc.kml"), string("files/b.png"), string("z.kml")}); e.second = r.of({string(""), string("<kml/>"), noise(20000)}); } return e; }
static void write2(Run& r) { int n = r.pick(3); vector<Ent> v; for (int i = 0; i < n; ++i) v.push_back(pickEnt(r, i == 0 || thorough)); verify(r, v, r.flip(), false); }
static void write4(Run& r) { int n = 3 + r.pick(2); if (!thorough && n == 4) { vector<Ent> v; for (int i = 0; i < 4; ++i) v.push_back({r.of({string("doc.kml"), string("a"), string("b.kml")}), str(i)}); verify(r, v, true, false); return; } vector<Ent> v; for (int i = 0; i < n; ++i) v.push_back(pickEnt(r, false)); verify(r, v, r.flip(), false); }
// Archives made elsewhere: stored and deflated entries, comments.
static void foreign(Run& r) { int n = 1 + r.pick(3); vector<zipmk::Entry> es; vector<Ent> want; for (int i = 0; i < n; ++i) { Ent e = pickEnt(r, i == 0 && (n < 3 || thorough)); if (i && e.first == want[0].first) r.prune(); es.push_back(zipmk::E(e.first, e.second, r.flip() ? 8 : 0)); want.push_back(e); } string c = n == 1 || thorough ? r.of({string(""), string("comment"), string(2000, 'c')}) : string(); string z = zipmk::make(es, c); r.nontrivial(); r.say(show(want)); reread(r, want, z, NULL); }
static void writeKmz(Run& r) { string kml = r.of(datas()); const char* f = "k.kmz"; unlink(f); r.nontrivial(); r.check(KmzFile::WriteKmz(f, kml), "archive:write-kmz", str(kml.size())); string b = slurp(f), why; vector<zipmk::Entry> g; r.check(zipmk::read(b, &g, &why) && g.size() == 1 && g[0].name == "doc.kml" && g[0].data == kml, "archive:write-kmz", str(kml.size()) + why); reread(r, {{"doc.kml", kml}}, b, f); unlink(f); r.check(!KmzFile::WriteKmz("no/such/dir/x.kmz", kml) && !KmzFile::Create("no/such/dir/x.kmz") && !ZipFile::Create("no/such/dir/x.kmz"), "archive:no-dir", ""); }
// The size limit: exactly at it is readable, above it is not.
static void limit(Run& r) { size_t n = r.of({(size_t)1, (size_t)2, (size_t)100, (size_t)16384, (size_t)40000}); int d = r.pick(3) - 1; unsigned lim = n + d; bool st = r.flip(); string z = zipmk::make({zipmk::E("doc.kml", noise(n), st ? 0 : 8)}); r.nontrivial(); kmlengine::KmzFilePtr k = KmzFile::OpenFromString(z); k->set_max_uncompressed_file_size(lim); r.check(k->get_max_uncompressed_file_size() == lim, "archive:limit-get", str(lim)); string o = "previous"; bool ok = k->ReadKml(&o); r.check(ok == (n <= lim), "archive:limit", str(n) + " with limit " + str(lim)); if (ok) r.check(o == noise(n), "archive:limit-bytes", str(n)); else r.check(o == "previous", "archive:limit-output", str(n)); }
// The default document is what parsing the archive uses.
static void parse(Run& r) { vector<zipmk::Entry> es; int n = 1 + r.pick(3); string want; for (int i = 0; i < n; ++i) { int k = r.pick(4); string nm = k == 0 ? "doc.kml" : k == 1 ? "sub/n" + str(i) + ".kml" : k == 2 ? "n" + str(i) + ".txt" : "n" + str(i) + ".KML"; string d = "<kml><Placemark><name>e" + str(i) + "</name></Placemark></kml>"; for (auto& e : es) if (e.name == nm) r.prune(); es.push_back(zipmk::E(nm, d, r.flip() ? 8 : 0)); if (k < 2 && want.empty()) want = "e" + str(i); } r.nontrivial(); string err; kmldom::ElementPtr root; kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromString(zipmk::make(es)); r.step(); r.check((kf.get() != NULL) == !want.empty(), "archive:parse", want); if (kf) { kmldom::KmlPtr k = kmldom::AsKml(kf->get_root()); r.eq(want, k->get_feature()->get_name(), "archive:parse", ""); } kmldom::ElementPtr e = kmldom::ParseKml(zipmk::make(es)); (void)e; }
// Many entries, long common prefixes, growing contents.
static void scale(Run& r) { static const int N[] = {5, 17, 33, 65, 129, 257, 600}; int n = N[r.pick(thorough ? 7 : 6)], shape = r.pick(4), first = r.pick(3); bool kmz = r.flip(), own = r.flip(); vector<Ent> v; for (int i = 0; i < n; ++i) { string ext = (first == 0 && i == n - 1) || (first == 1 && i == n / 2) || first == 2 ? ".kml" : ".png"; string nm = shape == 0 ? "e" + str(i) + ext : shape == 1 ? "files/sub/dir/" + string(i % 50, 'x') + str(i) + ext : shape == 2 ? string(i / 2 + 1, 'a') + (i % 2 ? "b" : "") + ext : "e" + str(i / 2) + ext; v.push_back({nm, i % 5 == 4 ? noise(1000 + i) : "<d>" + str(i) + "</d>"}); } if (own) { verify(r, v, kmz, false); return; } vector<zipmk::Entry> es; for (size_t i = 0; i < v.size(); ++i) es.push_back(zipmk::E(v[i].first, v[i].second, (i % 2) == (size_t)kmz ? 8 : 0)); r.nontrivial(); r.say(show(v)); reread(r, v, zipmk::make(es), NULL); }
void mc_setup() {
  rule("every archive of up to 2 entries, the first over 16 names (lengths to 1028, directories, UTF-8, other case) and 10 contents (empty, NULs, ZIP signatures, buffer boundaries, 80 KB); up to 4 entries over 3 names and 3 contents with repeated names; written by ZipFile and KmzFile, read by an independent reader and by both classes from file and memory; archives of an independent writer, stored and deflated, with comments; the size limit at n-1, n, n+1; archives of 5 to 257 entries in 4 naming patterns, written and foreign");
  assume("of entries with the same name the first is the one read");
  add("write2", write2); add("write4", write4); add("foreign", foreign); add("writekmz", writeKmz, BOTH, 1); add("limit", limit, BOTH, 1); add("parse", parse, BOTH, 1);
  add("scale", scale, BOTH, 1);
}
