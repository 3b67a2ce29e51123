// P19: damaged and hostile archives.
#include "core.h"
#include "zipmk.h"
#include "kml/base/zip_file.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/kml_file.h"
#include "kml/dom.h"
#include <memory>
#include <set>
using namespace mc; using std::string; using std::vector; using kmlbase::ZipFile; using kmlengine::KmzFile;
static string noise(size_t n) { string s(n, 0); uint32_t x = 777; for (auto& c : s) { x = x * 1664525 + 1013904223; c = (char)(x >> 24); } return s; }
struct Base { vector<zipmk::Entry> es; string bytes; vector<size_t> local, central; size_t eocd; };
static Base mk(const vector<zipmk::Entry>& es, const string& comment) { Base b; b.es = es; b.bytes = zipmk::make(es, comment); size_t p = 0; for (auto& e : es) { b.local.push_back(p); p += 30 + e.name.size() + (e.method == 8 ? zipmk::deflate_raw(e.data).size() : e.data.size()); } for (auto& e : es) { b.central.push_back(p); p += 46 + e.name.size(); } b.eocd = p; return b; }
static const vector<Base>& bases() {
  static vector<Base> v; if (v.empty()) { string k = "<kml><Placemark><name>n</name></Placemark></kml>"; v.push_back(mk({zipmk::E("doc.kml", k, 8)}, "")); v.push_back(mk({zipmk::E("doc.kml", k, 0), zipmk::E("b", noise(40), 8)}, "")); v.push_back(mk({zipmk::E("a.txt", "", 0), zipmk::E("d/doc.kml", k, 8), zipmk::E("c", string(300, 'x'), 8)}, "hello")); v.push_back(mk({zipmk::E("x", noise(64), 0), zipmk::E("y", "", 8), zipmk::E("doc.kml", k + string(2000, ' '), 8), zipmk::E("z", "z", 0)}, "")); } return v;
}
// What the archive's own directory says: for every central record, wherever it is.
static bool vouched(const string& z, const string& name, const string& data) { unsigned long crc = crc32(0, (const Bytef*)data.data(), data.size()); for (size_t p = 0; p + 46 <= z.size(); ++p) if (zipmk::g32(z, p) == 0x02014b50 && zipmk::g32(z, p + 16) == crc && zipmk::g32(z, p + 24) == data.size()) { unsigned nl = zipmk::g16(z, p + 28); if (z.compare(p + 46, nl, name) == 0 || z.substr(p + 46, nl).c_str() == name) return true; } return false; }
// intact: names of entries that must still be readable.
static void verify(Run& r, const string& z, const vector<zipmk::Entry>& intact, const string& what, unsigned limit = 1 << 20) {
  r.nontrivial(); r.step(); r.say(what); std::unique_ptr<ZipFile> f(ZipFile::OpenFromString(z)); if (!f) { r.check(intact.empty(), "damaged:not-opened", what); return; } f->set_max_uncompressed_file_size(limit); vector<string> toc; f->GetToc(&toc); std::set<string> seen; string sum;
  for (auto& n : toc) { if (!seen.insert(n).second) continue; string out = "previous"; bool ok = f->GetEntry(n, &out); sum += ok ? "1" : "0"; if (!ok) { r.check(out == "previous", "damaged:output-touched", what + " " + n.substr(0, 50)); continue; } r.check(out.size() <= limit, "damaged:over-limit", what + " " + str(out.size())); r.check(vouched(z, n, out), "damaged:unverified", what + " entry " + n.substr(0, 50) + " " + str(out.size()) + " bytes"); if (seen.size() > 40) break; }
  for (auto& e : intact) { string out; r.check(f->GetEntry(e.name, &out) && out == e.data, "damaged:lost-intact", what + " entry " + e.name); }
  kmlengine::KmzFilePtr k = KmzFile::OpenFromString(z); k->set_max_uncompressed_file_size(limit); string out, path; if (k->ReadKmlAndGetPath(&out, &path)) r.check(vouched(z, path, out), "damaged:unverified", what); vector<string> l; k->List(&l); string p; f->FindFirstOf(".kml", &p); r.state(sum);
}
// Which entries a damage at [from, to) leaves intact and listed before it.
static vector<zipmk::Entry> intact(const Base& b, size_t from, size_t to) {
  vector<zipmk::Entry> v; if (to > b.eocd) return v; if (from < 4) return v; for (size_t i = 0; i < b.es.size(); ++i) { size_t ls = b.local[i], le = i + 1 < b.local.size() ? b.local[i + 1] : b.central[0], ce = i + 1 < b.central.size() ? b.central[i + 1] : b.eocd; if (from < le && to > ls) continue; if (from >= b.central[0] && from < ce) continue; v.push_back(b.es[i]); } return v;
}
static void cut(Run& r) { int i = r.pick((int)bases().size()); const Base& b = bases()[i]; size_t n = r.pick((int)b.bytes.size() + 1); verify(r, b.bytes.substr(0, n), n == b.bytes.size() ? b.es : vector<zipmk::Entry>(), "base " + str(i) + " cut at " + str(n)); }
static void bytes(Run& r) { int i = r.pick((int)bases().size()); const Base& b = bases()[i]; size_t p = r.pick((int)b.bytes.size()); string z = b.bytes; int how = r.pick(255); unsigned char c = z[p]; c ^= how + 1; z[p] = c; verify(r, z, intact(b, p, p + 1), "base " + str(i) + " byte " + str(p) + " ^" + str((int)(unsigned char)(c ^ b.bytes[p]))); }
struct Fld { size_t off; int w; const char* name; };
static vector<Fld> flds(const Base& b) { vector<Fld> v; auto L = [&](size_t o) { static const Fld f[] = {{0, 4, "lsig"}, {4, 2, "lver"}, {6, 2, "lflag"}, {8, 2, "lmethod"}, {14, 4, "lcrc"}, {18, 4, "lcsize"}, {22, 4, "lusize"}, {26, 2, "lname"}, {28, 2, "lextra"}}; for (auto& x : f) v.push_back({o + x.off, x.w, x.name}); }; auto C = [&](size_t o) { static const Fld f[] = {{0, 4, "csig"}, {8, 2, "cflag"}, {10, 2, "cmethod"}, {16, 4, "ccrc"}, {20, 4, "ccsize"}, {24, 4, "cusize"}, {28, 2, "cname"}, {30, 2, "cextra"}, {32, 2, "ccomment"}, {34, 2, "cdisk"}, {42, 4, "coffset"}}; for (auto& x : f) v.push_back({o + x.off, x.w, x.name}); }; for (size_t o : b.local) L(o); for (size_t o : b.central) C(o); static const Fld e[] = {{0, 4, "esig"}, {4, 2, "edisk"}, {6, 2, "edisk2"}, {8, 2, "en"}, {10, 2, "en2"}, {12, 4, "esize"}, {16, 4, "eoffset"}, {20, 2, "ecomment"}}; for (auto& x : e) v.push_back({b.eocd + x.off, x.w, x.name}); return v; }
static unsigned long val(Run& r, const Base& b, const Fld& f, bool few) { unsigned long o = f.w == 4 ? zipmk::g32(b.bytes, f.off) : zipmk::g16(b.bytes, f.off), n = b.bytes.size(); if (few) { unsigned long v[] = {0, 0xffffffffUL, o + 1, n}; return v[r.pick(4)]; } unsigned long v[] = {0, 1, 2, o + 1, o - 1, o * 2, n - 1, n, n + 1, 0x7fff, 0x8000, 0xffff, 0x7fffffffUL, 0x80000000UL, 0xfffffffeUL, 0xffffffffUL, 0x10000, 8, o + 0x100, b.eocd, b.central[0], 0xffffffffUL - n, 12, 46}; return v[r.pick(24)]; }
static void put(string& z, const Fld& f, unsigned long v) { for (int i = 0; i < f.w; ++i) z[f.off + i] = (char)((v >> (8 * i)) & 255); }
static void field1(Run& r) { int i = r.pick((int)bases().size()); const Base& b = bases()[i]; vector<Fld> fs = flds(b); const Fld& f = fs[r.pick((int)fs.size())]; unsigned long v = val(r, b, f, false); string z = b.bytes; put(z, f, v); verify(r, z, z == b.bytes ? b.es : intact(b, f.off, f.off + f.w), "base " + str(i) + " " + f.name + "@" + str(f.off) + "=" + str(v)); }
static void field2(Run& r) { int i = r.pick((int)bases().size()); const Base& b = bases()[i]; vector<Fld> fs = flds(b); int x = r.pick((int)fs.size()), y = r.pick((int)fs.size()); if (x >= y) r.prune(); unsigned long v = val(r, b, fs[x], !thorough), w = val(r, b, fs[y], true); string z = b.bytes; put(z, fs[x], v); put(z, fs[y], w); verify(r, z, {}, "base " + str(i) + " " + fs[x].name + "@" + str(fs[x].off) + "=" + str(v) + " " + fs[y].name + "@" + str(fs[y].off) + "=" + str(w)); }
// A field changed in a truncated archive.
static void fieldcut(Run& r) { int i = r.pick(3); const Base& b = bases()[i]; vector<Fld> fs = flds(b); const Fld& f = fs[r.pick((int)fs.size())]; unsigned long v = val(r, b, f, true); string z = b.bytes; put(z, f, v); size_t n = r.pick((int)z.size()); verify(r, z.substr(0, n), {}, "base " + str(i) + " " + f.name + "=" + str(v) + " cut at " + str(n)); }
// Archive bytes placed after or before other bytes, sizes lying about the data.
static void odd(Run& r) {
  int k = r.pick(8); string z, what = "odd " + str(k); unsigned lim = 1 << 20; vector<zipmk::Entry> in; zipmk::Entry big = zipmk::E("doc.kml", string(3 << 20, ' '), 8); unsigned long n = r.of({0UL, 1UL, 2UL, 7UL, 100UL, 70000UL});
  if (k == 0) { z = bases()[1].bytes + string(n, 'j'); if (n == 0) in = bases()[1].es; } else if (k == 1) z = "PK\3\4" + string(n, 0); else if (k == 2) { z = zipmk::make({big}); lim = (3 << 20) - 1 - n; } else if (k == 3) { z = zipmk::make({big}); lim = (3 << 20) + n; in.push_back(big); } else if (k == 4) { z = zipmk::make({big}); Base b = mk({big}, ""); Fld f = {b.central[0] + 24, 4, ""}; put(z, f, n); f.off = 22; put(z, f, n); } else if (k == 5) { vector<zipmk::Entry> es; for (int i = 0; i < 300; ++i) es.push_back(zipmk::E("e" + str(i), str(i), i % 2 ? 8 : 0)); z = zipmk::make(es, string(n % 65536, 'c')); in = es; } else if (k == 6) { zipmk::Entry e = zipmk::E(string(n % 65536, 'n'), "data", 0); if (e.name.empty()) e.name = "q"; z = zipmk::make({e}); in.push_back(e); } else { z = string("PK\3\4") + bases()[2].bytes.substr(bases()[2].central[0]); }
  verify(r, z, in, what + " n=" + str(n), lim);
}
// Reading a document out of a damaged archive.
static void parse(Run& r) { const Base& b = bases()[2]; size_t p = r.pick((int)b.bytes.size()); string z = b.bytes; z[p] ^= 1 << r.pick(8); r.nontrivial(); kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromString(z); r.step(); if (f) { kmldom::KmlPtr k = kmldom::AsKml(f->get_root()); r.check(k && k->get_feature() && k->get_feature()->get_name() == "n", "damaged:parsed", str(p)); } r.state(f ? "parsed" : "refused"); }
void mc_setup() {
  rule("four archives (stored, deflated, empty entries, comment): every truncation; every byte changed to every other value; every header field of every record set to 24 values; every pair of fields set to 4 values each (24 and 4 thorough); lying sizes, bombs, long names, trailing bytes; every returned entry compared with the size and checksum in the archive's directory, every undamaged entry listed before the damage read back; memory checked");
  assume("an entry counts as intact when neither its local record, its directory entry nor an earlier directory entry or the end record is damaged");
  add("truncate", cut); add("bytes", bytes); add("field1", field1); add("field2", field2); add("fieldcut", fieldcut, THOROUGH); add("odd", odd, BOTH, 1); add("parse", parse);
}
