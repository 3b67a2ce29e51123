// P21: file writes report failure; temporary files are private and removed.
#include "core.h"
#include "zipmk.h"
#include "kml/base/file.h"
#include "kml/base/tempfile.h"
#include "kml/base/zip_file.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/kml_file.h"
#include "kml/dom.h"
#include <memory>
#include <set>
#include <fstream>
#include <sstream>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
using namespace mc; using std::string; using std::vector; using kmlbase::File; using kmlbase::ZipFile; using kmlengine::KmzFile;
static string slurp(const string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static string noise(size_t n) { string s(n, 0); uint32_t x = 99; for (auto& c : s) { x = x * 1664525 + 1013904223; c = (char)(x >> 24); } return s; }
// The file system accepts data up to a size and then reports an error.
struct Stop { struct rlimit old; explicit Stop(long n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); if (n >= 0) { struct rlimit l = old; l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); } } ~Stop() { setrlimit(RLIMIT_FSIZE, &old); } };
static void put(const string& f, const string& d) { std::ofstream o(f.c_str(), std::ios::binary); o << d; }
static void writeStr(Run& r) {
  size_t n = r.of({(size_t)0, (size_t)1, (size_t)2, (size_t)37, (size_t)1024, (size_t)8190, (size_t)8191, (size_t)8192, (size_t)8193, (size_t)16384, (size_t)70000}); bool sparse = n > 1024 && !thorough; long k; if (sparse) { static const long D[] = {0, 1, 2, 4095, 4096, 4097, 8190, 8191, 8192, 8193}; int i = r.pick(16); k = i < 10 ? D[i] : (long)n - 4 + (i - 10); } else k = r.pick((int)n + 3) - 1; int pre = r.pick(3); const char* f = "w.dat"; unlink(f); if (pre == 1) put(f, "old"); if (pre == 2) put(f, noise(n + 50)); string d = noise(n); bool ok; r.nontrivial(); r.step(); { Stop s(k); ok = File::WriteStringToFile(d, f); } string ctx = str(n) + " bytes, stops after " + str(k); bool fits = k < 0 || (size_t)k >= n; r.check(ok == fits, ok ? "write:false-success" : "write:false-failure", ctx); if (ok) r.check(slurp(f) == d, "write:bytes", ctx); string back; if (ok) { r.check(File::ReadFileToString(f, &back) && back == d, "write:read-back", ctx); r.check(File::Exists(f), "write:exists", ctx); } r.state(ok ? "ok" : "failed"); unlink(f);
}
// The same with descriptors whose writes fail, and files that cannot be opened.
static void nodev(Run& r) { int k = r.pick(8); string d = r.of({string(""), string("x"), noise(9000)}); r.nontrivial(); r.step(); mkdir("dir", 0700); if (k == 0 && !d.empty()) r.check(!File::WriteStringToFile(d, "/dev/full"), "write:full", str(d.size())); if (k == 1) r.check(!File::WriteStringToFile(d, ""), "write:empty-name", ""); if (k == 2) r.check(!File::WriteStringToFile(d, "no/such/x"), "write:no-dir", ""); if (k == 3) r.check(!File::WriteStringToFile(d, "dir"), "write:directory", ""); string o = "previous"; if (k == 4) r.check(!File::ReadFileToString("dir", &o), "read:directory", o); if (k == 5) r.check(!File::ReadFileToString("none", &o) && !File::ReadFileToString("", &o) && o == "previous", "read:missing", ""); if (k == 6) { put("e.dat", d); r.check(!File::ReadFileToString("e.dat", NULL), "read:null", ""); r.check(File::Exists("e.dat") && !File::Exists("dir") && !File::Exists("none"), "file:exists", ""); put("f.dat", "keep"); r.check(File::Delete("e.dat") && !File::Exists("e.dat") && !File::Delete("e.dat") && slurp("f.dat") == "keep" && !File::Delete("dir") && !File::Delete("none"), "file:delete", ""); unlink("f.dat"); } if (k == 7 && !d.empty()) { r.check(!KmzFile::WriteKmz("/dev/full", d), "write:kmz-full", ""); r.check(!KmzFile::WriteKmz("dir", d) && !KmzFile::Create("dir"), "write:kmz-dir", ""); } rmdir("dir"); }
static void readSizes(Run& r) { size_t n = r.pick(3) == 0 ? (size_t)r.pick(5) : (size_t)1024 * (1 + r.pick(4)) - 2 + r.pick(5); string d = noise(n); put("r.dat", d); string o = "previous"; r.nontrivial(); r.step(); r.check(File::ReadFileToString("r.dat", &o) && o == d, "read:bytes", str(n)); unlink("r.dat"); }
// Archives: every offset at which the disk fills up.
static bool complete(const char* f, const vector<std::pair<string, string>>& want, string* why) { vector<zipmk::Entry> v; if (!zipmk::read(slurp(f), &v, why)) return false; if (v.size() != want.size()) { *why = str(v.size()) + " entries"; return false; } for (size_t i = 0; i < v.size(); ++i) if (v[i].name != want[i].first || v[i].data != want[i].second) { *why = "entry " + str(i); return false; } return true; }
static size_t sizeOf(const char* f) { struct stat s; return stat(f, &s) ? 0 : s.st_size; }
static void kmz(Run& r) {
  int what = r.pick(3); string d = what == 0 ? "<kml/>" : what == 1 ? noise(300) : noise(thorough ? 9000 : 5000); const char* f = "k.kmz"; unlink(f); r.check(KmzFile::WriteKmz(f, d), "archive:write", ""); size_t full = sizeOf(f); long k = r.pick((int)full + 2); unlink(f); r.nontrivial(); r.step(); bool ok; { Stop s(k); ok = KmzFile::WriteKmz(f, d); } string why, ctx = str(d.size()) + " bytes in an archive of " + str(full) + ", stops after " + str(k); bool c = complete(f, {{"doc.kml", d}}, &why); if (ok) r.check(c, "archive:false-success", ctx + " " + why); if ((size_t)k >= full) r.check(ok, "archive:false-failure", ctx); r.state(ok ? "ok" : "failed"); unlink(f);
}
static void entries(Run& r) {
  // Add entries one by one; success of every call means a complete archive.
  int n = 1 + r.pick(3); vector<std::pair<string, string>> v; for (int i = 0; i < n; ++i) v.push_back({"e" + str(i), i == 1 ? noise(400) : i == 2 ? string(100, 'q') : noise(70)}); const char* f = "e.kmz"; auto run = [&](long k) { unlink(f); Stop s(k); std::unique_ptr<ZipFile> z(ZipFile::Create(f)); if (!z) return false; bool ok = true; for (auto& e : v) ok &= z->AddEntry(e.second, e.first); ok &= z->Close(); r.check(!z->AddEntry("x", "late"), "archive:add-after-close", ""); return ok; }; r.check(run(-1), "archive:write", ""); size_t full = sizeOf(f); string why; r.check(complete(f, v, &why), "archive:write", why); long k = r.pick((int)full + 2); bool ok = run(k); r.nontrivial(); r.step(n + 1); bool c = complete(f, v, &why); string ctx = str(n) + " entries, stops after " + str(k) + " of " + str(full); if (ok) r.check(c, "archive:false-success", ctx + " " + why); if ((size_t)k >= full) r.check(ok, "archive:false-failure", ctx); r.state(ok ? "ok" : "failed"); unlink(f);
}
static void fromKml(Run& r) {
  mkdir("base", 0700); put("base/a.png", noise(700)); string res = noise(700); int how = r.pick(3); string k = "<kml><GroundOverlay><Icon><href>a.png</href></Icon></GroundOverlay></kml>"; put("base/my.kml", k); const char* f = "c.kmz"; kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromStringWithUrl(k, "base", NULL); auto run = [&](long n) { unlink(f); Stop s(n); return how == 0 ? KmzFile::CreateFromKmlFilepath("base/my.kml", f) : how == 1 ? KmzFile::CreateFromKmlFile(kf, f) : KmzFile::CreateFromElement(kf->get_root(), "base", f); }; r.check(run(-1), "archive:create", ""); size_t full = sizeOf(f); vector<zipmk::Entry> v; string why; r.check(zipmk::read(slurp(f), &v, &why) && v.size() == 2 && v[1].data == res, "archive:create", why); vector<std::pair<string, string>> want; for (auto& e : v) want.push_back({e.name, e.data}); long n = r.pick((int)full + 2); bool ok = run(n); r.nontrivial(); r.step(); string ctx = "stops after " + str(n) + " of " + str(full); if (ok) r.check(complete(f, want, &why), "archive:false-success", ctx + " " + why); if ((size_t)n >= full) r.check(ok, "archive:false-failure", ctx); r.state(ok ? "ok" : "failed"); unlink(f);
}
// Histories of temporary files.
static void temps(Run& r) {
  int depth = thorough ? 7 : 6; vector<kmlbase::TempFilePtr> live; vector<string> name; std::set<string> gone; mode_t um = r.flip() ? 0 : 027; mode_t old = umask(um); r.nontrivial();
  try { for (int i = 0; i < depth; ++i) { int op = r.pick(3); r.step(); if (op == 0) { kmlbase::TempFilePtr t = kmlbase::TempFile::CreateTempFile(); r.check(t.get() != NULL, "temp:create", ""); string n = t->name(); for (auto& x : name) r.check(x != n, "temp:not-unique", n); struct stat s; r.check(stat(n.c_str(), &s) == 0 && S_ISREG(s.st_mode) && s.st_size == 0, "temp:missing", n); r.check((s.st_mode & 077) == 0 && (s.st_mode & 0600) == 0600, "temp:mode", str((int)(s.st_mode & 0777))); r.check(File::WriteStringToFile("d" + str(i), n), "temp:write", n); live.push_back(t); name.push_back(n); } else if (op == 1) { if (live.empty()) r.prune(); live.erase(live.begin()); gone.insert(name[0]); name.erase(name.begin()); } else { if (live.empty()) r.prune(); kmlbase::TempFilePtr copy = live.back(); live.back() = NULL; r.check(File::Exists(name.back()), "temp:gone-while-held", ""); live.back() = copy; }
    for (auto& n : name) r.check(File::Exists(n), "temp:gone-while-held", n); for (auto& n : gone) { bool again = false; for (auto& x : name) again |= x == n; if (!again) r.check(access(n.c_str(), F_OK) != 0, "temp:left-behind", n); } mode_t now = umask(um); umask(um); r.check(now == um, "temp:umask", str((int)now)); } } catch (...) { live.clear(); umask(old); throw; }
  live.clear(); for (auto& n : name) r.check(access(n.c_str(), F_OK) != 0, "temp:left-behind", n); umask(old); r.state(str(name.size()));
}
static void tempFault(Run& r) { int k = r.pick(2); r.nontrivial(); r.step(); if (k == 0) { struct rlimit o, l; getrlimit(RLIMIT_NOFILE, &o); l = o; l.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &l); kmlbase::TempFilePtr t = kmlbase::TempFile::CreateTempFile(); string p = "previous"; bool ok = File::CreateNewTempFile(&p); mode_t u = umask(022); umask(u); setrlimit(RLIMIT_NOFILE, &o); r.check(!t.get() && !ok && p == "previous", "temp:false-success", ""); r.check(u != 0177, "temp:umask", ""); } else r.check(!File::CreateNewTempFile(NULL), "temp:null", ""); }
void mc_setup() {
  rule("for data of 11 sizes around buffer boundaries every offset (near boundaries above 1 KB, all thorough) at which the file system stops accepting data, over fresh, shorter and longer existing files; archives of one to three entries and archives with resources made in three ways, every offset at which the disk fills; a full device, directories and missing paths; all histories of up to 6 operations (create, release, move) on temporary files under two umasks, and creation without free descriptors");
  assume("a full disk is modelled by the process's file size limit, which fails writes at an exact offset");
  add("write", writeStr); add("devices", nodev, BOTH, 1); add("read", readSizes, BOTH, 1); add("kmz", kmz); add("entries", entries); add("fromkml", fromKml); add("temps", temps); add("tempfault", tempFault, BOTH, 1);
}
