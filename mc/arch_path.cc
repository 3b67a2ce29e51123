// P20: archive creation stays inside the archive root and below the base directory.
#include "core.h"
#include "zipmk.h"
#include "kml/base/zip_file.h"
#include "kml/base/file.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/kml_file.h"
#include "kml/dom.h"
#include <memory>
#include <set>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace mc; using std::string; using std::vector; using kmlbase::ZipFile; using kmlengine::KmzFile;
static string slurp(const string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static vector<string> segs(const string& p, const char* sep) { vector<string> v; size_t b = 0; for (;;) { size_t e = p.find_first_of(sep, b); v.push_back(p.substr(b, e == string::npos ? e : e - b)); if (e == string::npos) return v; b = e + 1; } }
static bool escapes(const string& p) { if (!p.empty() && (p[0] == '/' || p[0] == '\\')) return true; int d = 0; for (auto& s : segs(p, "/\\")) { if (s == "..") { if (--d < 0) return true; } else if (!s.empty() && s != ".") ++d; } return false; }
static vector<zipmk::Entry> readBack(Run& r, const char* f, const string& what) { vector<zipmk::Entry> v; string why; r.check(zipmk::read(slurp(f), &v, &why), "path:archive", what + " " + why); return v; }
static string join(Run& r, const vector<string>& S, int max, const vector<string>& seps) { int n = 1 + r.pick(max); string p = r.of({string(""), string("/"), string("\\")}); for (int i = 0; i < n; ++i) { if (i) p += r.of(seps); p += r.of(S); } return p; }
static void entry(Run& r) {
  string p = join(r, {"a", "..", ".", "", "..b", "b..", "..."}, thorough ? 5 : 4, {"/", "\\"}); const char* f = "p.kmz"; unlink(f); bool ok; { std::unique_ptr<ZipFile> z(ZipFile::Create(f)); ok = z->AddEntry("data", p); z->AddEntry("x", "last"); } r.nontrivial(); r.step(); r.say(p); bool bad = escapes(p); if (bad) r.check(!ok, "path:accepted", p); else if (p.compare(0, 2, "..") != 0 && p.find("..") == string::npos && !p.empty()) r.check(ok, "path:refused", p); vector<zipmk::Entry> v = readBack(r, f, p); r.check(v.size() == (ok ? 2u : 1u) && v.back().name == "last", "path:entries", p); for (auto& e : v) r.check(!escapes(e.name), "path:in-archive", e.name); if (ok) r.check(v[0].name == p && v[0].data == "data", "path:entries", p); r.state(bad ? "bad" : ok ? "ok" : "refused"); unlink(f);
}
// A directory tree whose files contain their own names.
static const vector<string>& tree() { static const vector<string> v = {"a.png", "x y.png", "sub/c.png", "sub/d.kml", "sub/deep/e.png", "b.txt", "..f", "sub/..g", "a%20b.png", "q?r", "%2e%2e"}; return v; }
static string mkTree() { static string abs; if (!abs.empty()) return abs; char b[4096]; abs = getcwd(b, sizeof b); for (const char* d : {"top", "top/base", "top/base/sub", "top/base/sub/deep", "top/other", "top/base2"}) mkdir(d, 0700); for (auto& f : tree()) std::ofstream(("top/base/" + f).c_str()) << "IN:" << f; for (const char* f : {"top/out.png", "top/other/a.png", "top/base2/a.png", "out.png"}) std::ofstream(f) << "OUT:" << f; abs += "/top"; return abs; }
static bool plain(const string& h) { return h.find_first_of("%\\?#:") == string::npos && h.find('\0') == string::npos; }
// Normal form of a plain relative reference; false when it leads above or is absolute.
static bool normal(const string& h, string* out) { if (h.empty() || h[0] == '/') return false; vector<string> st; for (auto& s : segs(h, "/")) { if (s == "..") { if (st.empty()) return false; st.pop_back(); } else if (s != "." && !s.empty()) st.push_back(s); } out->clear(); for (auto& s : st) *out += (out->empty() ? "" : "/") + s; return true; }
static void contained(Run& r, const vector<zipmk::Entry>& v, size_t from, const string& what) { std::set<string> seen; for (size_t i = from; i < v.size(); ++i) { r.check(!escapes(v[i].name), "path:in-archive", what + " -> " + v[i].name); r.check(v[i].data.compare(0, 3, "IN:") == 0, "path:outside-file", what + " -> " + v[i].name + "=" + v[i].data); r.check(seen.insert(v[i].name).second, "path:twice", what + " -> " + v[i].name); for (auto& s : segs(v[i].name, "/")) r.check(s != "." && s != "..", "path:not-normalized", what + " -> " + v[i].name); string flat; for (auto& s : segs(v[i].name, "/")) if (!s.empty()) flat += (flat.empty() ? "" : "/") + s; r.eq(flat, v[i].data.substr(3), "path:wrong-file", what); } }
static bool exists(const string& n) { for (auto& f : tree()) if (f == n) return true; return false; }
static void verifyList(Run& r, const vector<string>& h, const string& base) {
  mkTree(); const char* f = "l.kmz"; unlink(f); size_t err; { kmlengine::KmzFilePtr k = KmzFile::Create(f); err = k->AddFileList(base, h); } string what; for (auto& x : h) what += "[" + x + "]"; what += " base " + base; r.nontrivial(); r.step(); r.say(what); vector<zipmk::Entry> v = readBack(r, f, what); unlink(f); contained(r, v, 0, what);
  bool all = true; for (auto& x : h) all &= plain(x); if (!all) { size_t lo = v.size(); r.check(lo + err <= h.size(), "path:error-count", what + " entries " + str(lo) + " errors " + str(err)); std::set<string> d(h.begin(), h.end()); if (d.size() == 1) r.check(v.size() == 1 || err >= 1, "path:uncounted", what); r.state(str(lo) + "," + str(err)); return; }
  // Plain references: exactly these entries, exactly these errors.  Empty segments may be kept or dropped by normalization, in which case the file is not found or found.
  vector<string> want; size_t werr = 0; std::set<string> seen; bool vague = false; size_t rep = 0; std::set<string> refused; for (auto& x : h) { string n; if (x.find("//") != string::npos || (x.size() && x[x.size() - 1] == '/') || segs(x, "/").back() == "." || segs(x, "/").back() == ".." || x.compare(0, 2, "..") == 0 && x != "..f" ? x.compare(0, 3, "../") != 0 && x != ".." : false) { vague = true; } if (!normal(x, &n)) { ++werr; if (!refused.insert(x).second) ++rep; continue; } if (n.compare(0, 2, "..") == 0) { vague = true; } if (!seen.insert(n).second) { if (!exists(n)) vague = vague; continue; } if (!exists(n)) { ++werr; continue; } want.push_back(n); }
  if (vague) { r.check(v.size() + err <= h.size(), "path:error-count", what); return; } string a, b; for (auto& w : want) a += w + "\n"; for (auto& e : v) b += e.name + "\n"; r.eq(a, b, "path:entries", what); if (!(err < werr && err + rep >= werr)) r.eq(str(werr), str(err), "path:error-count", what); r.state(a + str(err));
}
static const vector<string>& SEG() { static const vector<string> v = {"a.png", "sub", "c.png", "..", ".", "", "deep", "e.png", "base", "other", "out.png", "none"}; return v; }
static string baseOf(Run& r) { return r.of({string("top/base"), string("top/base/"), mkTree() + "/base", string("./top/base")}); }
static string href(Run& r, int max) { int n = 1 + r.pick(max); string p = r.flip() ? "/" : ""; for (int i = 0; i < n; ++i) { if (i) p += "/"; p += r.of(SEG()); } return p; }
static void list1(Run& r) { verifyList(r, {href(r, thorough ? 5 : 4)}, thorough ? baseOf(r) : string("top/base")); }
static void listBase(Run& r) { string b = baseOf(r); verifyList(r, {href(r, 3)}, b); }
static const vector<string>& ODD() { static vector<string> v; if (v.empty()) { string abs = mkTree(); v = {"%2e%2e/out.png", "%2E%2E%2Fout.png", "..%2fout.png", "sub/%2e%2e/%2e%2e/out.png", "..\\out.png", "sub\\..\\..\\out.png", "sub\\c.png", "\\out.png", "C:\\out.png", abs + "/out.png", "file://" + abs + "/out.png", "file:///" + abs + "/out.png", "http://h/../out.png", "http://h/a.png", "a.png#frag", "../out.png#f", "sub/../a.png#f", "a.png?q", "q?r", "a%20b.png", "x y.png", "x%20y.png", "%2e%2e", "..f", "sub/..g", "//h/a.png", "//a.png", "a.png/", "a.png/..", "sub/..//../out.png", "sub/./../../base/a.png", "../base/a.png", "../base2/a.png", "./../out.png", "", "#", "?", "#f", "a.png\n", " ../out.png", "sub/%2e./../out.png", "%00", string("a.png\0/../../out.png", 20), "....//out.png", "..;/out.png", "~/x", "$[name]", "sub/c.png", "./sub//c.png"}; } return v; }
static void odd(Run& r) { int n = 1 + r.pick(2); vector<string> h; for (int i = 0; i < n; ++i) h.push_back(r.of(ODD())); verifyList(r, h, "top/base"); }
static void list2(Run& r) { static const vector<string> v = {"a.png", "./a.png", "sub/../a.png", "sub/c.png", "sub/deep/../c.png", "none.png", "./none.png", "../out.png", "b.txt", "sub"}; int n = 2 + r.pick(2); vector<string> h; for (int i = 0; i < n; ++i) h.push_back(r.of(v)); bool nd = false; for (auto& x : h) if (x == "sub" || x == "none.png" || x == "./none.png") nd = true; if (nd) { std::set<string> s; int k = 0; for (auto& x : h) if (x.find("none") != string::npos || x == "sub") { ++k; s.insert(x.find("none") != string::npos ? "none" : x); } if (k != (int)s.size()) r.prune(); } verifyList(r, h, "top/base"); }
// Whole documents.
static void document(Run& r) {
  mkTree(); int how = r.pick(3); vector<string> h; int n = 1 + r.pick(2); static const vector<string> pool = {"a.png", "sub/c.png", "../out.png", "none.png", "http://h/x.png", "./sub/../a.png", "sub/d.kml", "/abs.png", "sub/deep/e.png#x", "x y.png"}; for (int i = 0; i < n; ++i) h.push_back(r.of(pool)); int place = r.pick(3); string k = "<kml><Document>"; for (auto& x : h) k += place == 0 ? "<Placemark><Style><IconStyle><Icon><href>" + x + "</href></Icon></IconStyle></Style></Placemark>" : place == 1 ? "<GroundOverlay><Icon><href>" + x + "</href></Icon></GroundOverlay>" : "<NetworkLink><Link><href>" + x + "</href></Link></NetworkLink>"; k += "</Document></kml>"; const char* f = "d.kmz"; unlink(f); bool ok;
  if (how == 0) { std::ofstream("top/base/my.kml") << k; ok = KmzFile::CreateFromKmlFilepath("top/base/my.kml", f); unlink("top/base/my.kml"); } else { kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromStringWithUrl(k, "top/base", NULL); ok = how == 1 ? KmzFile::CreateFromKmlFile(kf, f) : KmzFile::CreateFromElement(kf->get_root(), "top/base", f); } r.nontrivial(); r.step(); r.say(k); r.check(ok, "path:create", k); vector<zipmk::Entry> v = readBack(r, f, k); unlink(f); r.check(!v.empty() && v[0].name == "doc.kml", "path:doc-first", k); kmldom::ElementPtr e = kmldom::Parse(v[0].data, NULL); r.check(e.get() != NULL, "path:doc", v[0].data); contained(r, v, 1, k);
  std::set<string> want, got; for (auto& x : h) { if (x[0] == '/' || x.find("://") != string::npos) continue; string p = x.substr(0, x.find('#')), nn; if (normal(p, &nn) && exists(nn)) want.insert(nn); } for (size_t i = 1; i < v.size(); ++i) got.insert(v[i].name); string a, b; for (auto& x : want) a += x + "\n"; for (auto& x : got) b += x + "\n"; r.eq(a, b, "path:resources", k); r.state(a);
}
static void failures(Run& r) { int k = r.pick(6); r.nontrivial(); kmlengine::KmlFilePtr none; if (k == 0) r.check(!KmzFile::CreateFromKmlFilepath("", "x.kmz") && !KmzFile::CreateFromKmlFilepath("none.kml", "x.kmz"), "path:fail", "no input"); if (k == 1) { std::ofstream("bad.kml") << "<kml"; r.check(!KmzFile::CreateFromKmlFilepath("bad.kml", "x.kmz"), "path:fail", "bad kml"); unlink("bad.kml"); } if (k == 2) r.check(!KmzFile::CreateFromKmlFile(none, "x.kmz"), "path:fail", "null"); if (k == 3) { kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromString("<kml/>"); r.check(!KmzFile::CreateFromKmlFile(kf, "") && !KmzFile::CreateFromElement(kf->get_root(), "", ""), "path:fail", "no output"); } if (k == 4) { kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromString("<kml/>"); r.check(!KmzFile::CreateFromKmlFile(kf, "no/dir/x.kmz"), "path:fail", "no directory"); } if (k == 5) { mkTree(); kmlengine::KmzFilePtr z = KmzFile::Create("e.kmz"); r.check(z->AddFileList("top/base", {}) == 0, "path:fail", "empty list"); unlink("e.kmz"); } unlink("x.kmz"); }
// Long lists of references: one bad reference among many, and repeats far apart.
static void scale(Run& r) { static const int N[] = {9, 33, 65, 129, 257}; int n = N[r.pick(5)], odd_ = r.pick(8), at = r.pick(3), rep = r.pick(3); mkTree(); static bool made = false; if (!made) { made = true; for (int i = 0; i < 257; ++i) { string p = (i % 2 ? "sub/s" : "s") + str(i) + ".png"; std::ofstream(("top/base/" + p).c_str()) << "IN:" << p; } } static const vector<string> O = {"../out.png", "/a.png", "none.png", "sub/../../out.png", "..", "sub/none/../c.png", "./a.png", ""}; vector<string> h, want; size_t werr = 0; string bad = O[odd_]; int b = at == 0 ? 0 : at == 1 ? n / 2 : n; for (int i = 0; i <= n; ++i) { if (i == b) { h.push_back(bad); if (odd_ == 5) want.push_back("sub/c.png"); else if (odd_ == 6) want.push_back("a.png"); else ++werr; } if (i == n) break; string p = (i % 2 ? "sub/s" : "s") + str(i) + ".png"; h.push_back(p); want.push_back(p); } if (rep == 1) { h.push_back("s0.png"); h.push_back("./s0.png"); } if (rep == 2) h.push_back("sub/deep/../../s0.png");
  const char* f = "l.kmz"; unlink(f); size_t err; { kmlengine::KmzFilePtr k = KmzFile::Create(f); err = k->AddFileList("top/base", h); } string what = str(n) + " with [" + bad + "] at " + str(b); r.nontrivial(); r.step(); r.say(what); vector<zipmk::Entry> v = readBack(r, f, what); unlink(f); contained(r, v, 0, what); string a, c; for (auto& w : want) a += w + "\n"; for (auto& e : v) c += e.name + "\n"; r.eq(a, c, "path:entries", what); r.eq(str(werr), str(err), "path:error-count", what); }
void mc_setup() {
  rule("every entry path of up to 4 segments (5 thorough) of 7 spellings with both separators and leading separators; every reference of up to 4 segments of 12 (files, directories, dots, empty) against a directory tree with files inside and outside, whose contents are their names; 49 odd references (percent-encoded, backslashes, absolute, schemes, queries, NUL) alone and in pairs; lists with repeats in different spelling; whole documents in three ways; the archive compared with a reference by an independent reader; lists of 9 to 257 references with one odd reference in 3 places and repeats");
  assume("whether a percent-encoded reference means the encoded or the decoded file name is not decided, only that no file outside is archived");
  add("entry", entry); add("list1", list1); add("listbase", listBase); add("odd", odd); add("list2", list2); add("document", document); add("failures", failures, BOTH, 1);
  add("scale", scale, BOTH, 1);
}
