// P22: URI resolution, splitting, normalization.
#include "core.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kml_uri_internal.h"
#include "kml/engine/href.h"
#include "kml/base/uri_parser.h"
#include <memory>
using namespace mc; using std::string; using std::vector;
// RFC 3986, appendix B and section 5, written from the RFC.
struct U { string scheme, auth, path, query, frag; bool hs, ha, hq, hf; };
static U split(const string& s0) { U u; string s = s0; u.hs = u.ha = u.hq = u.hf = false; size_t p = s.find('#'); if (p != string::npos) { u.hf = true; u.frag = s.substr(p + 1); s.erase(p); } p = s.find('?'); if (p != string::npos) { u.hq = true; u.query = s.substr(p + 1); s.erase(p); } p = s.find_first_of(":/"); if (p != string::npos && p > 0 && s[p] == ':') { u.hs = true; u.scheme = s.substr(0, p); s.erase(0, p + 1); } if (s.compare(0, 2, "//") == 0) { u.ha = true; p = s.find('/', 2); u.auth = s.substr(2, p == string::npos ? p : p - 2); s = p == string::npos ? "" : s.substr(p); } u.path = s; return u; }
static string dots(string in) { string out; while (!in.empty()) { if (in.compare(0, 3, "../") == 0) in.erase(0, 3); else if (in.compare(0, 2, "./") == 0) in.erase(0, 2); else if (in.compare(0, 3, "/./") == 0) in.erase(0, 2); else if (in == "/.") in = "/"; else if (in.compare(0, 4, "/../") == 0) { in.erase(0, 3); size_t p = out.rfind('/'); out.erase(p == string::npos ? 0 : p); } else if (in == "/..") { in = "/"; size_t p = out.rfind('/'); out.erase(p == string::npos ? 0 : p); } else if (in == "." || in == "..") in.clear(); else { size_t p = in.find('/', in[0] == '/' ? 1 : 0); out += in.substr(0, p); in = p == string::npos ? "" : in.substr(p); } } return out; }
static string text(const U& u) { string s; if (u.hs) s += u.scheme + ":"; if (u.ha) s += "//" + u.auth; s += u.path; if (u.hq) s += "?" + u.query; if (u.hf) s += "#" + u.frag; return s; }
static U resolve(const U& b, const U& r) { U t = r; if (r.hs) { t.path = dots(r.path); return t; } t.hs = true; t.scheme = b.scheme; if (r.ha) { t.path = dots(r.path); return t; } t.ha = b.ha; t.auth = b.auth; if (r.path.empty()) { t.path = b.path; if (!r.hq) { t.hq = b.hq; t.query = b.query; } return t; } if (r.path[0] == '/') t.path = dots(r.path); else { string m; if (b.ha && b.path.empty()) m = "/" + r.path; else { size_t p = b.path.rfind('/'); m = (p == string::npos ? "" : b.path.substr(0, p + 1)) + r.path; } t.path = dots(m); } return t; }
static string path(Run& r, const vector<string>& S, int max, bool rel) { int n = r.pick(max + 1); string p = r.flip() ? "/" : ""; if (n == 0) return p; for (int i = 0; i < n; ++i) { if (i) p += "/"; p += r.of(S); } if (rel && p.compare(0, 2, "//") == 0) r.prune(); return p; }
static const vector<string>& BASES() { static const vector<string> v = {"http://h", "http://h/", "http://h/a", "http://h/a/", "http://h/a/b/c", "http://h/a/b/c?q#f", "http://h:80/a/../b/./c", "http://u@h/a//b", "file:///a/b", "http://h/d/f.kmz/e.kml", "x+y://h/a", "http://h?q", "http://h/a/..", "http://[::1]/a/b"}; return v; }
// uriparser keeps an absolute empty path apart from an empty one; "http://h" and "http://h/" name the same.
static string canon(const string& s) { U u = split(s); if (u.ha && u.path.empty()) u.path = "/"; if (u.path.compare(0, 4, "/.//") == 0) u.path.erase(0, 2); size_t e = u.auth.find("[0000:0000:0000:0000:0000:0000:0000:0001]"); if (e != string::npos) u.auth.replace(e, 41, "[::1]"); return text(u); }
static void checkResolve(Run& r, const string& b, const string& ref) {
  string want = text(resolve(split(b), split(ref))), got = "previous"; r.nontrivial(); r.step(); r.say(b + " + " + ref); bool ok = kmlengine::ResolveUri(b, ref, &got); r.check(ok, "uri:resolve-failed", b + " + " + ref); r.eq(canon(want), canon(got), "uri:resolve", b + " + " + ref); r.state(want);
  // The address to fetch is the same without the fragment.
  std::unique_ptr<kmlengine::KmlUri> ku(kmlengine::KmlUri::CreateRelative(b, ref)); r.check(ku.get() != NULL, "uri:kmluri", b + " + " + ref); U t = split(want); t.hf = false; t.frag = ""; r.eq(canon(text(t)), canon(ku->get_url()), "uri:fetch-url", b + " + " + ref); r.check(ku->get_target() == ref, "uri:kmluri-parts", ref);
}
static void rel(Run& r) { string b = r.of(BASES()); string p = path(r, {"a", "..", ".", "", "g.kml"}, thorough ? 4 : 3, true); string q = r.of({string(""), string("?y"), string("?"), string("#s"), string("?y#s"), string("?a/../b#c/./d")}); checkResolve(r, b, p + q); }
static void reldeep(Run& r) { string b = r.of({string("http://h/a/b/c/d?q"), string("file:///a/b/c"), string("http://h/x.kmz/y/z")}); string p = path(r, {"a", "..", "."}, thorough ? 7 : 6, true); checkResolve(r, b, p); }
static void absref(Run& r) { string b = r.of(BASES()); string a = r.of({string("http://k"), string("//k"), string("ftp://k:21"), string("file://"), string("http://u@k")}); string p = path(r, {"a", "..", ".", "b.kml", "%7e"}, 3, false); if (!p.empty() && p[0] != '/') r.prune(); if (a == "file://" && p.empty()) r.prune(); string q = r.of({string(""), string("?q"), string("#f")}); checkResolve(r, b, a + p + q); }
static void bad(Run& r) { static const vector<string> B = {"", "a/b", "/a", "#f", "http://h/a b", "http://h/%zz", "http://h/a", "ht tp://h", "//h/a"}, R = {"a", "a b", "%zz", "\\a", "http://[", "<", "a#b#c", "", "%"}; string b = r.of(B), f = r.of(R); r.nontrivial(); string got = "previous"; bool ok = kmlengine::ResolveUri(b, f, &got); bool good = b == "http://h/a" && (f == "a" || f == ""); r.check(ok == good, "uri:invalid", b + " + " + f + " gave " + got); if (!ok) r.check(got == "previous", "uri:invalid-output", b + " + " + f); r.check(!kmlengine::ResolveUri("http://h/a", "b", NULL), "uri:null", ""); std::unique_ptr<kmlengine::KmlUri> ku(kmlengine::KmlUri::CreateRelative(b, f)); r.check((ku.get() != NULL) == good, "uri:invalid-kmluri", b + " + " + f); }
static void splitAll(Run& r) {
  string sc = r.of({string(""), string("http"), string("x+y.z-1"), string("K")}), au = r.of({string("-"), string(""), string("h"), string("h.com:8080"), string("u:p@h:1"), string("[::1]:2"), string("1.2.3.4")}); string p = path(r, {"a", "..", "b.kml", "", "%7e"}, thorough ? 3 : 2, au == "-"); if (au != "-" && !p.empty() && p[0] != '/') r.prune(); if (au == "" && sc.empty()) r.prune(); if (au == "" && p.empty()) r.prune(); string q = r.of({string("-"), string(""), string("q=1&r"), string("?/:@")}), f = r.of({string("-"), string(""), string("id"), string("a/b?c")}); if (sc.empty() && au == "-" && !p.empty()) {} string u = (sc.empty() ? "" : sc + ":") + (au == "-" ? "" : "//" + au) + p + (q == "-" ? "" : "?" + q) + (f == "-" ? "" : "#" + f); r.nontrivial(); r.step(); r.say(u);
  string hp = au == "-" ? "" : au.substr(au.find('@') == string::npos ? 0 : au.find('@') + 1), host = hp, port; size_t c = hp.rfind(':'); if (hp.compare(0, 1, "[") == 0) { size_t e = hp.find(']'); host = hp.substr(1, e - 1); if (e + 1 < hp.size()) port = hp.substr(e + 2); } else if (c != string::npos) { host = hp.substr(0, c); port = hp.substr(c + 1); }
  string s = "#", h = "#", o = "#", pa = "#", qu = "#", fr = "#"; r.check(kmlengine::SplitUri(u, &s, &h, &o, &pa, &qu, &fr), "uri:split-failed", u); r.eq(sc, s, "uri:scheme", u); r.eq(host, h, "uri:host", u); r.eq(port, o, "uri:port", u); string wp = p.compare(0, 1, "/") == 0 ? p.substr(1) : p; if (pa != p) r.eq(wp, pa, "uri:path", u); r.eq(q == "-" ? "" : q, qu, "uri:query", u); r.eq(f == "-" ? "" : f, fr, "uri:fragment", u); r.check(kmlengine::SplitUri(u, NULL, NULL, NULL, NULL, NULL, NULL), "uri:split-null", u);
  fr = "#"; r.check(kmlengine::SplitUriFragment(u, &fr) == (f != "-"), "uri:has-fragment", u); if (f != "-") r.eq(f, fr, "uri:fragment", u); if (p != "/" && !p.empty()) { pa = "#"; r.check(kmlengine::SplitUriPath(u, &pa) && (pa == wp || pa == p), "uri:split-path", u + " " + pa); } string fe = "#"; r.check(kmlengine::GetFetchableUri(u, &fe), "uri:fetchable", u); r.eq(u.substr(0, u.find('#')), fe, "uri:fetchable", u);
  std::unique_ptr<kmlbase::UriParser> up(kmlbase::UriParser::CreateFromParse(u.c_str())); string t; r.check(up.get() && up->ToString(&t), "uri:tostring", u); if (au[0] == '[') { size_t e = t.find("[0000:0000:0000:0000:0000:0000:0000:0001]"); if (e != string::npos) t.replace(e, 41, "[::1]"); } r.eq(u, t, "uri:tostring", u);
  kmlengine::Href hr(u); r.check(hr.IsRelative() == (sc.empty() && (au == "-" || au == "")), "uri:href-relative", u); r.eq(sc, hr.get_scheme(), "uri:href-scheme", u); r.eq(f == "-" ? "" : f, hr.get_fragment(), "uri:href-fragment", u); r.eq(au == "-" ? "" : au, hr.get_net_loc(), "uri:href-netloc", u); string hpth = au == "-" ? p : wp; r.eq(hpth + (q == "-" ? "" : "?" + q), hr.get_path(), "uri:href-path", u); r.check(hr.IsFragmentOnly() == (sc.empty() && hr.get_net_loc().empty() && hr.get_path().empty() && !hr.get_fragment().empty()), "uri:href-fragment-only", u); r.check(hr.IsRelativePath() == (hr.IsRelative() && hr.has_path()), "uri:href-relative-path", u);
}
// References with ':' and '//' in places that are not a scheme or authority.
static void hrefs(Run& r) { struct T { const char* h; const char* s; const char* n; const char* p; const char* f; }; static const T t[] = {{"a.kml?u=http://x/y", "", "", "a.kml?u=http://x/y", ""}, {"./a:b", "", "", "./a:b", ""}, {"mailto:me", "mailto", "", "me", ""}, {"http:", "http", "", "", ""}, {"http://h#f", "http", "h", "", "f"}, {"http://h/p#f", "http", "h", "p", "f"}, {"http://h/p?q#f://x", "http", "h", "p?q", "f://x"}, {"#f://g", "", "", "", "f://g"}, {"//h/p", "", "h", "p", ""}, {"/p", "", "", "/p", ""}, {"://x", "", "", "://x", ""}, {"1a://h/p", "", "", "1a://h/p", ""}, {"", "", "", "", ""}, {"file:///a/b", "file", "", "a/b", ""}, {"a//b", "", "", "a//b", ""}, {"#", "", "", "", ""}}; const T& x = t[r.pick(16)]; kmlengine::Href h(x.h); r.nontrivial(); r.step(); r.eq(x.s, h.get_scheme(), "uri:href-scheme", x.h); r.eq(x.n, h.get_net_loc(), "uri:href-netloc", x.h); r.eq(x.p, h.get_path(), "uri:href-path", x.h); r.eq(x.f, h.get_fragment(), "uri:href-fragment", x.h); }
static string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static string pct(const string& s) { string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '%' && i + 2 < s.size()) { int v = (int)strtol(s.substr(i + 1, 2).c_str(), NULL, 16); if (isalnum(v) || v == '-' || v == '.' || v == '_' || v == '~') o += (char)v; else { char b[4]; snprintf(b, 4, "%%%02X", v); o += b; } i += 2; } else o += s[i]; } return o; }
static void normalize(Run& r) {
  string sc = r.of({string("http"), string("HTTP"), string("X-y")}), au = r.of({string("h"), string("H.Com"), string("h:80")}); string p = path(r, {"a", "..", ".", "%7e", "%2f", "%c3%A9", "B"}, thorough ? 4 : 3, false); if (!p.empty() && p[0] != '/') r.prune(); string q = r.of({string(""), string("?%7eA%2f"), string("#%41/../b")}); string u = sc + "://" + au + p + q; r.nontrivial(); r.step(); r.say(u); string n, n2; r.check(kmlengine::NormalizeUri(u, &n), "uri:normalize-failed", u); U w = split(u); w.scheme = lower(w.scheme); w.auth = lower(w.auth); w.path = dots(pct(w.path)); w.query = pct(w.query); w.frag = pct(w.frag); r.eq(canon(text(w)), canon(n), "uri:normalize", u); r.check(kmlengine::NormalizeUri(n, &n2), "uri:normalize-failed", n); r.eq(n, n2, "uri:idempotent", u); r.check(!kmlengine::NormalizeUri(u, NULL), "uri:null", ""); r.state(n);
}
static void filenames(Run& r) { int n = 1 + r.pick(thorough ? 5 : 4); string f = r.flip() ? "/" : ""; for (int i = 0; i < n; ++i) { if (i) f += "/"; f += r.of({string("a"), string("x y"), string("%41"), string("\xc3\xa9"), string("#?&"), string("a:b"), string("..")}); } r.nontrivial(); r.step(); string u, g; r.check(kmlengine::FilenameToUri(f, &u) && kmlengine::UriToFilename(u, &g), "uri:filename", f); r.eq(f, g, "uri:filename", f); string v; for (char c : u) r.check((unsigned char)c > 32 && (unsigned char)c < 127, "uri:filename-uri", f + " -> " + u); string h, h2; if (f.find(":") == string::npos && kmlengine::NormalizeHref(f, &h)) { r.check(kmlengine::NormalizeHref(h, &h2), "uri:normalize-href", f); r.eq(h, h2, "uri:href-idempotent", f); if (f.find("..") == string::npos) r.eq(f, h, "uri:normalize-href", f); } r.check(!kmlengine::FilenameToUri(f, NULL) && !kmlengine::UriToFilename(u, NULL) && !kmlengine::NormalizeHref(f, NULL), "uri:null", ""); }
static bool ends(const string& s, const string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static void kmz(Run& r) {
  string pre = r.of({string("http://h/"), string("http://h.kmz/"), string(""), string("/"), string("http://h.kmzz:80/")}); int n = 1 + r.pick(thorough ? 5 : 4); vector<string> s; string u = pre; for (int i = 0; i < n; ++i) { s.push_back(r.of({string("a"), string("b.kmz"), string("c.kmzx"), string("d.kml"), string("e.kmz.kmz"), string("kmz"), string("..kmz")})); if (i) u += "/"; u += s.back(); } if (r.flip()) { s.push_back(""); u += "/"; } int at = -1; for (size_t i = 0; i < s.size(); ++i) if (ends(s[i], ".kmz")) { at = i; break; } string wu, wp; if (at >= 0) { wu = pre; for (int i = 0; i <= at; ++i) wu += (i ? "/" : "") + s[i]; for (size_t i = at + 1; i < s.size(); ++i) wp += (i > (size_t)at + 1 ? "/" : "") + s[i]; } r.nontrivial(); r.step(); r.say(u); string gu = "previous", gp = "previous"; bool ok = kmlengine::KmzSplit(u, &gu, &gp); r.check(ok == (at >= 0), "uri:kmz-split", u); if (ok) { r.eq(wu, gu, "uri:kmz-url", u); r.eq(wp, gp, "uri:kmz-path", u); } r.check(kmlengine::KmzSplit(u, NULL, NULL) == ok, "uri:kmz-null", u);
  if (pre.compare(0, 4, "http") == 0) { string q = r.of({string(""), string("?x.kmz/y"), string("#z.kmz/w")}); std::unique_ptr<kmlengine::KmlUri> ku(kmlengine::KmlUri::CreateRelative("http://base/x", u + q)); r.check(ku.get() != NULL, "uri:kmluri", u + q); r.check(ku->is_kmz() == (at >= 0), "uri:is-kmz", u + q); if (at >= 0) { r.eq(wu, ku->get_kmz_url(), "uri:kmz-url", u + q); r.eq(wp, ku->get_path_in_kmz(), "uri:kmz-path", u + q); } }
}
// Model: the target is resolved against the geometry, which is resolved against the base.
static void model(Run& r) { string b = r.of({string("http://h/a/b.kml"), string("http://h/a/b.kmz"), string("http://h/a/b.kmz/d.kml")}), g = path(r, {"g.dae", "..", "m"}, 3, true), t = path(r, {"t.jpg", "..", "."}, 3, true); string got, want = text(resolve(resolve(split(b), split(g)), split(t))); r.nontrivial(); r.step(); r.check(kmlengine::ResolveModelTargetHref(b, g, t, &got), "uri:model", b + " " + g + " " + t); r.eq(canon(want), canon(got), "uri:model", b + " + " + g + " + " + t); r.check(!kmlengine::ResolveModelTargetHref(b, g, t, NULL) && !kmlengine::ResolveModelTargetHref("", g, t, &got) && !kmlengine::ResolveModelTargetHref(b, "a b", t, &got), "uri:model-invalid", ""); }
void mc_setup() {
  rule("14 bases with every relative reference of up to 3 segments (4 thorough) of 5 kinds and 6 endings, dot segments to depth 6, and 5 kinds of absolute reference; splitting over every combination of scheme, authority, path, query and fragment; normalization over case, percent-encoding and dot segments; filenames to URIs and back; archive paths of up to 4 segments of 7 kinds; model targets; each against a reading of RFC 3986");
  assume("IPv6 literals may be written in any equivalent form and a path beginning // may be protected by /. (uriparser); an empty path and / are the same after an authority; a path may be reported with or without its leading slash");
  add("relative", rel); add("deep", reldeep); add("absolute", absref); add("bad", bad, BOTH, 1); add("split", splitAll); add("href", hrefs, BOTH, 1); add("normalize", normalize); add("filename", filenames); add("kmz", kmz); add("model", model);
}
