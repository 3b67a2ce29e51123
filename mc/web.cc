// P34: the web service clients, against a recording server.
#include "domgen.h"
#include <memory>
#include <stdlib.h>
#include "kml/convenience/http_client.h"
#include "kml/convenience/google_maps_data.h"
#include "kml/convenience/google_spreadsheets.h"
#include "kml/convenience/google_doc_list.h"
#include "kml/convenience/google_picasa_web.h"
#include "kml/convenience/atom_util.h"
#include "kml/engine.h"
#include "kml/base/expat_parser.h"
#include "kml/base/expat_handler.h"
using namespace mc; using namespace dg; using namespace kmlconvenience;
typedef vector<string> SV;
static const char* kM[] = {"", "OPTIONS", "GET", "HEAD", "POST", "PUT", "DELETE", "TRACE", "CONNECT"};
struct Req { HttpMethodEnum m; string uri; StringPairVector h; bool has_data; string data; };
struct Server {
  vector<Req> log; std::map<string, string> page; string dflt; std::set<int> fail; string fail_body; int limit = 60; Run* run; Server(Run& r) : run(&r) {}
};
class Client : public HttpClient {
 public: Server* s; Client(Server* sv) : HttpClient("app"), s(sv) {}
  bool SendRequest(HttpMethodEnum m, const string& uri, const StringPairVector* h, const string* d, string* out) const {
    Req q; q.m = m; q.uri = uri; if (h) q.h = *h; q.has_data = d != NULL; if (d) q.data = *d; int n = (int)s->log.size(); s->log.push_back(q);
    if (n > s->limit) s->run->fail("web:does-not-terminate", uri);
    if (s->fail.count(n)) { if (out) *out = s->fail_body; return false; }
    string b = s->page.count(uri) ? s->page[uri] : s->dflt; if (out) *out = b; return true;
  }
};
static string hdr(const StringPairVector& h) { string o; for (auto& p : h) o += p.first + "=" + p.second + ";"; return o; }
static void one(Run& r, const Server& s, HttpMethodEnum m, const string& uri, const string& h, const string* data, const string& sig) {
  r.eq((size_t)1, s.log.size(), sig + "-requests", ""); const Req& q = s.log[0]; r.eq(kM[m], string(kM[q.m]), sig + "-method", ""); r.eq(uri, q.uri, sig + "-uri", ""); r.eq(h, hdr(q.h), sig + "-headers", ""); r.eq(data != NULL, q.has_data, sig + "-data", ""); if (data) r.eq(*data, q.data, sig + "-data", "");
}
// Headers of the session and of the default (echoing) implementation.
static void headers(Run& r) {
  HttpClient c("my app"); string want = "User-Agent=my app GData-C++/1.0;"; StringPairVector model; model.push_back({"User-Agent", "my app GData-C++/1.0"}); int n = r.pick(4); static const SV F = {"A", "B", "User-Agent"}, V = {"1", "", "x: y"};
  for (int i = 0; i < n; ++i) { string f = r.of(F), v = r.of(V); c.AddHeader(f, v); model.push_back({f, v}); } r.eq(hdr(model), hdr(c.get_headers()), "web:headers", ""); r.nontrivial(); r.step(); r.state(hdr(model));
  for (auto& f : SV{"A", "B", "User-Agent", "a", ""}) { string got = "unset", w = "unset"; bool in = false; for (auto& p : model) if (!in && p.first == f) { in = true; w = p.second; } r.eq(in, HttpClient::FindHeader(f, model, &got), "web:find-header", f); r.eq(w, got, "web:find-header", f); r.eq(in, HttpClient::FindHeader(f, model, NULL), "web:find-header-null", f); }
  int m = 1 + r.pick(8); bool more = r.flip(); StringPairVector ex; if (more) { HttpClient::PushHeader("E", "1", &ex); HttpClient::PushHeader("A", "2", &ex); } HttpClient::PushHeader("E", "1", NULL); string out = "kept", w = string("kept") + kM[m] + " u:/v?w\n"; for (auto& p : model) w += p.first + ": " + p.second + "\n"; for (auto& p : ex) w += p.first + ": " + p.second + "\n";
  r.check(c.SendRequest((HttpMethodEnum)m, "u:/v?w", more ? &ex : NULL, NULL, &out), "web:default-send", ""); r.eq(w, out, "web:default-send", ""); r.check(c.SendRequest((HttpMethodEnum)m, "u", NULL, NULL, NULL), "web:default-send-null", "");
  out.clear(); r.check(c.FetchUrl("u:/f", &out), "web:fetch", ""); r.check(out.compare(0, 9, "GET u:/f\n") == 0, "web:fetch", out);
  StringPairVector d = ex; HttpClient::AppendHeaders(model, &d); HttpClient::AppendHeaders(model, NULL); r.eq(hdr(ex) + hdr(model), hdr(d), "web:append-headers", "");
}
// Signing in: the token is the rest of the Auth line, and is sent from then on.
static void login(Run& r) {
  Server s(r); Client c(&s); bool fail = r.flip(); if (fail) s.fail.insert(0); string tok = r.of({string("t"), string("DQAA-x_9/="), string("")}); static const SV L = {"SID=s1", "LSID=l2", "Expires=1"}; int before = r.pick(3), after = r.pick(3); bool auth = r.flip(), nl = r.flip(); SV lines; for (int i = 0; i < before; ++i) lines.push_back(L[i]); if (auth) lines.push_back("Auth=" + tok); for (int i = 0; i < after; ++i) lines.push_back(L[i]); string resp; for (size_t i = 0; i < lines.size(); ++i) resp += lines[i] + (i + 1 < lines.size() || nl ? "\n" : ""); s.dflt = resp; r.say(resp); r.nontrivial(); r.step(); r.state(resp);
  string svc = r.of({string("local"), string("wise")}); bool ok = c.Login(svc, "me@x.org", "p w"); string data = "Email=me@x.org&Passwd=p w&accountType=HOSTED_OR_GOOGLE&source=app&service=" + svc; one(r, s, HTTP_POST, "https://www.google.com/accounts/ClientLogin", "", &data, "login");
  r.eq(!fail && auth, ok, "login:result", resp); r.eq(ok ? tok : string(), c.get_auth_token(), "login:token", resp); r.eq(string("User-Agent=app GData-C++/1.0;") + (ok ? "Authorization=GoogleLogin auth=" + tok + ";" : ""), hdr(c.get_headers()), "login:header", resp);
}
static const string NS = " xmlns=\"http://www.w3.org/2005/Atom\" xmlns:k=\"http://www.opengis.net/kml/2.2\" xmlns:gd=\"http://schemas.google.com/g/2005\"";
// The feed of each service.
template <class T> static void meta_of(Run& r, const string& scope_env, const string& scope, const string& uri, const string& svc, const string& ver) {
  int env = r.pick(3); if (env) setenv(scope_env.c_str(), env == 1 ? "http://other:81" : "", 1); else unsetenv(scope_env.c_str()); string sc = env == 0 ? scope : env == 1 ? "http://other:81" : "";
  Server s(r); int body = r.pick(5); bool fail = r.flip(); static const SV B = {"<feed" + NS + "><title>t</title><entry><title>e</title></entry></feed>", "<entry" + NS + "/>", "", "<feed", "<k:kml" + NS + "/>"}; s.dflt = B[body]; if (fail) { s.fail.insert(0); s.fail_body = B[body]; s.fail.insert(1); } r.nontrivial(); r.step(); r.state(svc + mc::str(env) + mc::str(body) + mc::str(fail));
  r.check(T::Create(NULL) == NULL, "meta:create-null", svc); r.eq(svc, string(T::get_service_name()), "meta:service", ""); r.eq(uri, string(T::get_metafeed_uri()), "meta:feed-uri", "");
  Client* c = new Client(&s); std::unique_ptr<T> t(T::Create(c)); unsetenv(scope_env.c_str()); r.check(t.get() != NULL, "meta:create", svc); r.eq("User-Agent=app GData-C++/1.0;GData-Version=" + ver + ";", hdr(c->get_headers()), "meta:version", svc);
  string out = "unset"; bool ok = t->GetMetaFeedXml(&out); r.eq(!fail, ok, "meta:result", svc); if (ok) r.eq(B[body], out, "meta:xml", svc); one(r, s, HTTP_GET, sc + uri, "", NULL, "meta");
  kmldom::AtomFeedPtr f = t->GetMetaFeed(); r.eq((size_t)2, s.log.size(), "meta:feed-requests", ""); r.eq(sc + uri, s.log[1].uri, "meta:feed", ""); r.eq(!fail && body == 0, f.get() != NULL, "meta:feed", svc + B[body]); if (f.get()) { r.eq("t", f->get_title(), "meta:feed-title", ""); r.eq((size_t)1, f->get_entry_array_size(), "meta:feed-entries", ""); }
}
static void meta(Run& r) {
  switch (r.pick(4)) { case 0: meta_of<GoogleMapsData>(r, "GOOGLE_MAPS_DATA_SCOPE", "http://maps.google.com", "/maps/feeds/maps/default/full", "local", "2.0"); break; case 1: meta_of<GoogleSpreadsheets>(r, "GOOGLE_SPREADSHEETS_DATA_SCOPE", "http://spreadsheets.google.com", "/feeds/spreadsheets/private/full", "wise", "3.0"); break; case 2: meta_of<GoogleDocList>(r, "GOOGLE_DOC_LIST_SCOPE", "http://docs.google.com", "/feeds/default/private/full", "writely", "3.0"); break; default: meta_of<GooglePicasaWeb>(r, "GOOGLE_PICASA_WEB_SCOPE", "http://picasaweb.google.com", "/data/feed/api/user/default", "lh2", "2"); }
}
// Pages linked by "next", in every way, including back to earlier pages.
static void pages(Run& r) {
  Server s(r); Client* c = new Client(&s); std::unique_ptr<GoogleMapsData> g(GoogleMapsData::Create(c)); int n = 1 + r.pick(3); vector<int> next(n); vector<vector<string>> feat(n); string first, d;
  static const SV E = {"", "<entry><content><k:Placemark><k:name>@</k:name></k:Placemark></content></entry>", "<entry/><entry><content src=\"x\"/></entry><entry><content><k:Folder><k:name>@</k:name><k:Placemark/></k:Folder></content></entry>", "<entry><content><k:Point/></content></entry><entry><content><k:GroundOverlay><k:name>@</k:name></k:GroundOverlay></content></entry><entry><content><k:Placemark><k:name>@b</k:name></k:Placemark></content></entry>"};
  for (int i = 0; i < n; ++i) { next[i] = r.pick(n + 3) - 3; int e = r.pick(i == 0 ? 4 : 3); string b = E[e], nm = "f" + mc::str(i); for (size_t p; (p = b.find('@')) != string::npos;) b.replace(p, 1, nm); if (e) feat[i].push_back(nm); if (e == 3) feat[i].push_back(nm + "b"); string x = "<feed" + NS + "><link rel=\"self\" href=\"http://h/self\"/>"; if (next[i] >= -2) x += "<link rel=\"" + string(i == 1 ? "http://schemas/x#next" : "next") + "\" href=\"" + (next[i] == -2 ? "http://h/broken" : next[i] == -1 ? "http://h/failing" : "http://h/p" + mc::str(next[i])) + "\"/>"; x += b + "</feed>"; s.page["http://h/p" + mc::str(i)] = x; d += mc::str(i) + "->" + mc::str(next[i]) + ":" + mc::str(e) + " "; }
  s.page["http://h/broken"] = "<feed"; r.say(d); r.nontrivial(); r.step(); r.state(d);
  // The expected walk: each page once.
  string want; std::set<int> seen; size_t req = 0; for (int p = 0;;) { seen.insert(p); for (auto& f : feat[p]) want += f + ","; if (next[p] == -3) break; if (next[p] < 0) { ++req; break; } if (seen.count(next[p])) { break; } p = next[p]; ++req; }
  kmldom::AtomFeedPtr f = AtomUtil::GetAndParseFeed("http://h/p0", *c); r.check(f.get() != NULL, "pages:first", d); size_t r0 = s.log.size(); string e; bool again = false; (void)again;
  { kmldom::AtomFeedPtr nf = AtomUtil::GetNextFeed(f, *c); r.eq(next[0] >= 0, nf.get() != NULL, "pages:next", d); r.eq(r0 + (next[0] != -3), s.log.size(), "pages:next-requests", d); }
  r0 = s.log.size(); string before = kmldom::SerializeRaw(f); kmldom::DocumentPtr doc = g->CreateDocumentOfMapFeatures(f); r.check(doc.get() != NULL, "pages:document", d); string got; for (size_t i = 0; i < doc->get_feature_array_size(); ++i) got += doc->get_feature_array_at(i)->get_name() + ",";
  // A page the server hands out again (the first one is known only by content) may appear once more.
  string w2 = want; if (want != got && next[0] != -3) { std::set<int> sn; w2.clear(); int p = 0; bool f0 = true; for (;;) { if (!f0) sn.insert(p); f0 = false; for (auto& x : feat[p]) w2 += x + ","; if (next[p] < 0 || sn.count(next[p])) break; p = next[p]; } }
  r.check(got == want || got == w2, "pages:features", d + "want " + want + " or " + w2 + " got " + got); r.check(s.log.size() - r0 <= (size_t)n + 1, "pages:requests", d); r.check(s.log.size() - r0 >= req, "pages:requests", d); r.eq(before, kmldom::SerializeRaw(f), "pages:feed-changed", d);
  kmldom::FolderPtr fo = kmldom::KmlFactory::GetFactory()->CreateFolder(); r.eq((int)feat[0].size(), GoogleMapsData::GetMapKml(f, fo), "pages:count", d); r.eq(feat[0].size(), fo->get_feature_array_size(), "pages:appended", d); r.eq(-1, GoogleMapsData::GetMapKml(NULL, fo), "pages:no-feed", ""); r.eq(-1, GoogleMapsData::GetMapKml(f, NULL), "pages:no-container", ""); r.check(!g->CreateDocumentOfMapFeatures(NULL), "pages:null", "");
}
// Posted features.
class Sink : public kmlbase::ExpatHandler { public: void StartElement(const string&, const kmlbase::StringVector&) {} void EndElement(const string&) {} void CharData(const string&) {} };
static void posted(Run& r, const Req& q, const string& uri, const string& name, const string& desc, const string& feature, const string& ctx) {
  r.eq("POST", string(kM[q.m]), "post:method", ctx); r.eq(uri, q.uri, "post:uri", ctx); r.eq("Content-Type=application/atom+xml;", hdr(q.h), "post:headers", ctx); string err; r.check(q.has_data && q.data.compare(0, 5, "<?xml") == 0, "post:data", ctx);
  kmldom::ElementPtr e = kmldom::ParseAtom(q.data, &err); kmldom::AtomEntryPtr en = kmldom::AsAtomEntry(e); r.check(en.get() != NULL, "post:entry", err + q.data); r.eq(name, en->get_title(), "post:title", ctx); r.eq(desc, en->get_summary(), "post:summary", ctx); if (feature.empty()) { r.check(!en->has_content(), "post:content", ctx); return; } r.check(en->has_content(), "post:content", ctx); r.eq("application/vnd.google-earth.kml+xml", en->get_content()->get_type(), "post:type", ctx); r.eq((size_t)1, en->get_content()->get_misplaced_elements_array_size(), "post:features", q.data);
  Node a, b; r.check(xn::read(feature, &a, &err) && xn::read(q.data, &b, &err), "post:feature", err); Sink none; r.check(kmlbase::ExpatParser::ParseString(q.data, &none, &err, true), "post:namespaces", err + q.data);
  const Node* c = NULL; for (auto& k : b.kid) if (k.name == "atom:content" || k.name == "content") c = &k; r.check(c && c->kid.size() == 1, "post:content", q.data); kmldom::ElementPtr pf = kmldom::Parse(xn::write(c->kid[0]), &err); r.check(pf.get() != NULL, "post:feature-parse", err + q.data); r.check(kmldom::SerializeRaw(pf) == feature, "post:feature-differs", feature + " posted as " + q.data);
}
static const SV TX = {"", "n", "a & <b> \"c\" ]]> d", "\xc3\xa9"};
static void add_feature(Run& r) {
  static const SV G = {"", "<Point id=\"g\"><coordinates>1,2,3</coordinates></Point>", "<gx:Track><when>2001</when><gx:coord>1 2 3</gx:coord></gx:Track>", "<MultiGeometry id=\"i\"><Point id=\"g\"/><Point id=\"g\"/></MultiGeometry>"}; int gi = r.pick(4); string nm = r.of(TX), ds = r.of(TX); bool author = r.flip(), root = r.flip(), fail = r.flip(), out = r.flip(); int kind = r.pick(3); static const SV K = {"Placemark", "Folder", "GroundOverlay"}; if (kind && gi) r.prune();
  string err; ElementPtr e = kmldom::Parse("<" + K[kind] + " id=\"i0\">" + (author ? "<atom:author><atom:name>me</atom:name></atom:author>" : "") + "<Style id=\"s\"/>" + G[gi] + "</" + K[kind] + ">", &err); kmldom::FeaturePtr f = kmldom::AsFeature(e); r.check(f.get() != NULL, "post:oracle", err); if (!nm.empty()) f->set_name(nm); if (!ds.empty()) f->set_description(ds); kmldom::DocumentPtr d; if (!root) { d = kmldom::KmlFactory::GetFactory()->CreateDocument(); d->set_name("doc"); d->add_feature(f); } string ctx = kmldom::SerializeRaw(f); r.say(ctx); r.nontrivial(); r.step(); r.state(ctx);
  Server s(r); s.dflt = "answer"; s.fail_body = "no"; if (fail) s.fail.insert(0); std::unique_ptr<GoogleMapsData> g(GoogleMapsData::Create(new Client(&s))); string o = "unset"; bool ok = g->AddFeature("http://h/full?x", f, out ? &o : NULL); r.eq(ctx, kmldom::SerializeRaw(f), "post:changed-feature", ctx); r.check(root ? !f->GetParent() : f->GetParent().get() == (kmldom::Element*)d.get(), "post:parent", ctx);
  if (gi == 3 && s.log.empty()) { r.check(!ok, "post:duplicate-ids", ctx); return; }
  r.eq(!fail, ok, "post:result", ctx); if (ok && out) r.eq("answer", o, "post:answer", ctx); r.eq((size_t)1, s.log.size(), "post:requests", ctx); posted(r, s.log[0], "http://h/full?x", nm, ds, ctx, ctx);
}
static void create_map(Run& r) { string t = r.of(TX), d = r.of(TX); bool fail = r.flip(), out = r.flip(); Server s(r); s.dflt = "answer"; if (fail) s.fail.insert(0); std::unique_ptr<GoogleMapsData> g(GoogleMapsData::Create(new Client(&s))); string o = "unset"; r.nontrivial(); r.step(); bool ok = g->CreateMap(t, d, out ? &o : NULL); r.eq(!fail, ok, "map:result", t); r.eq((size_t)1, s.log.size(), "map:requests", t); posted(r, s.log[0], "http://maps.google.com/maps/feeds/maps/default/full", t, d, "", t); if (ok && out) r.eq("answer", o, "map:answer", t); }
// Every small hierarchy: each placemark with a geometry is posted once, in order.
static string tree(Run& r, int depth, int* budget, SV* want, int* id) {
  string o; while (*budget > 0 && r.flip()) { --*budget; int k = r.pick(depth > 1 ? 3 : 5); string nm = "n" + mc::str((*id)++); if (k == 0) { o += "<Placemark><name>" + nm + "</name><Point><coordinates>1,2</coordinates></Point></Placemark>"; want->push_back(nm); } else if (k == 1) { o += "<Placemark><name>" + nm + "</name><MultiGeometry><Point/></MultiGeometry></Placemark>"; want->push_back(nm); } else if (k == 2) o += "<NetworkLink><name>" + nm + "</name></NetworkLink>"; else o += string(k == 3 ? "<Folder>" : "<Document>") + "<name>" + nm + "</name>" + tree(r, depth + 1, budget, want, id) + (k == 3 ? "</Folder>" : "</Document>"); }
  return o;
}
static void post_all(Run& r) {
  SV want; int budget = thorough ? 5 : 4, id = 0; string root = r.of({string("Folder"), string("Document"), string("Placemark")}); string x = root == "Placemark" ? (want.push_back("n"), string("<Placemark><name>n</name><Point><coordinates>1,2</coordinates></Point></Placemark>")) : "<" + root + ">" + tree(r, 0, &budget, &want, &id) + "</" + root + ">"; string err; kmldom::FeaturePtr f = kmldom::AsFeature(kmldom::Parse(x, &err)); r.check(f.get() != NULL, "all:oracle", x + err);
  Server s(r); int fails = want.size() ? r.pick((int)want.size() + 1) : 0; if (fails) s.fail.insert(fails - 1); r.say(x); r.nontrivial(); r.step(); r.state(x + mc::str(fails)); std::unique_ptr<GoogleMapsData> g(GoogleMapsData::Create(new Client(&s))); string before = kmldom::SerializeRaw(f); int n = g->PostPlacemarks(f, "http://h/full"); r.eq(before, kmldom::SerializeRaw(f), "all:changed", x);
  r.eq((int)want.size() - (fails ? 1 : 0), n, "all:count", x); r.eq(want.size(), s.log.size(), "all:requests", x); for (size_t i = 0; i < want.size(); ++i) { kmldom::AtomEntryPtr en = kmldom::AsAtomEntry(kmldom::ParseAtom(s.log[i].data, NULL)); r.check(en.get() != NULL, "all:entry", x); r.eq(want[i], en->get_title(), "all:order", x); r.eq("http://h/full", s.log[i].uri, "all:uri", x); kmldom::FeaturePtr pf = AtomUtil::GetEntryFeature(en); r.check(pf.get() && pf->IsA(kmldom::Type_Placemark) && pf->get_name() == want[i] && kmldom::AsPlacemark(pf)->has_geometry(), "all:placemark", s.log[i].data); }
}
// Addresses found in entries; searches; media; downloads.
static kmldom::AtomEntryPtr entry(Run& r, string* src, string* alt, string* rid) {
  string x = "<entry" + NS + ">"; int a = r.pick(4), c = r.pick(5), g = r.pick(5); static const SV A = {"", "http://m/?a=1&amp;b", "u"}, C = {"", "http://m/f/u1/m1/full", "noslash", "/"};
  if (a == 3) { x += "<link rel=\"alternate\"/><link rel=\"http://s#alternate\" href=\"http://second\"/>"; *alt = "http://second"; } else if (a) { x += "<link rel=\"self\" href=\"zz\"/><link rel=\"alternate\" href=\"" + A[a] + "\"/><link rel=\"alternate\" href=\"later\"/>"; *alt = a == 1 ? "http://m/?a=1&b" : A[a]; }
  if (c == 4) x += "<content type=\"t\"/>"; else if (c) { x += "<content src=\"" + C[c] + "\"/>"; *src = C[c]; }
  if (g == 1) { x += "<gd:resourceId>doc:1</gd:resourceId>"; *rid = "doc:1"; } else if (g == 2) x += "<gd:other>q</gd:other>"; else if (g == 3) { x += "<gd:other>q</gd:other><gd:resourceId>spreadsheet:a-b_c</gd:resourceId>"; *rid = "spreadsheet:a-b_c"; } else if (g == 4) x += "<gd:resourceIdX>q</gd:resourceIdX>";
  x += "</entry>"; r.say(x); r.state(x); string err; kmldom::AtomEntryPtr e = kmldom::AsAtomEntry(kmldom::ParseAtom(x, &err)); r.check(e.get() != NULL, "entry:parse", err + x); return e;
}
static void lookups(Run& r) {
  string src = "-", alt = "-", rid = "-"; kmldom::AtomEntryPtr e = entry(r, &src, &alt, &rid); r.nontrivial(); r.step(); string o = "unset"; auto is = [&](bool ok, bool has, const string& w, const string& sig) { r.eq(has, ok, sig, ""); r.eq(has ? w : string("unset"), o, sig + "-value", ""); o = "unset"; };
  bool hs = src != "-"; is(GoogleMapsData::GetFeatureFeedUri(e, &o), hs, src, "look:feature-feed"); is(AtomUtil::GetContentSrc(e, &o), hs, src, "look:content"); r.eq(hs, GoogleMapsData::GetFeatureFeedUri(e, NULL), "look:null", ""); r.eq(hs, AtomUtil::GetContentSrc(e, NULL), "look:null", ""); r.check(!GoogleMapsData::GetFeatureFeedUri(NULL, &o) && !AtomUtil::GetContentSrc(NULL, &o) && !GoogleMapsData::GetKmlUri(NULL, &o) && !GoogleMapsData::GetSearchFeedUri(NULL, &o), "look:no-entry", "");
  bool hq = hs && src.find('/') != string::npos; string sf = hq ? src.substr(0, src.rfind('/') + 1) + "snippet" : ""; is(GoogleMapsData::GetSearchFeedUri(e, &o), hq, sf, "look:search"); r.eq(hq, GoogleMapsData::GetSearchFeedUri(e, NULL), "look:null", ""); bool ha = alt != "-"; is(GoogleMapsData::GetKmlUri(e, &o), ha, alt + "&output=kml", "look:kml"); r.eq(ha, GoogleMapsData::GetKmlUri(e, NULL), "look:null", ""); bool hr = rid != "-"; is(AtomUtil::GetGdResourceId(e, &o), hr, rid, "look:resource"); r.eq(hr, AtomUtil::GetGdResourceId(e, NULL), "look:resource-null", "");
  bool fail = r.flip(); { Server s(r); s.dflt = "cells"; if (fail) s.fail.insert(0); std::unique_ptr<GoogleSpreadsheets> g(GoogleSpreadsheets::Create(new Client(&s))); bool ok = g->DownloadSpreadsheet(e, "csv", &o); r.eq(hr && !fail, ok, "look:download", ""); r.eq(hr ? (size_t)1 : 0, s.log.size(), "look:download-requests", ""); if (hr) one(r, s, HTTP_GET, "http://spreadsheets.google.com/feeds/download/spreadsheets/Export?key=" + rid + "&exportFormat=csv", "", NULL, "look:download"); if (ok) r.eq("cells", o, "look:download-data", ""); }
  { Server s(r); int body = r.pick(2); s.dflt = body ? "<feed" + NS + "><entry/><entry/></feed>" : "<entry/>"; if (fail) s.fail.insert(0); std::unique_ptr<GoogleMapsData> g(GoogleMapsData::Create(new Client(&s))); kmlengine::Bbox b(10.5, -2, 30, -40.25); kmldom::AtomFeedPtr f = g->SearchMapByBbox(e, b); r.eq(hq && !fail && body, f.get() != NULL, "look:search-feed", ""); if (f.get()) r.eq((size_t)2, f->get_entry_array_size(), "look:search-feed", ""); if (hq) one(r, s, HTTP_GET, sf + "?box=-40.25,-2,30,10.5", "", NULL, "look:search"); else r.check(s.log.empty(), "look:search-requests", ""); }
}
static void media(Run& r) {
  int k = r.pick(4); int body = r.pick(3); bool fail = r.flip(), errs = r.flip(); static const SV D = {"", "a,b\n1,2\n", "<kml/>", string("x\0y", 3)}; const string& data = r.of(D); Server s(r); static const SV B = {"<entry" + NS + "><title>t</title></entry>", "line 1 is bad", "<feed" + NS + "/>"}; s.dflt = B[body]; if (fail) s.fail.insert(0); r.nontrivial(); r.step(); r.state(mc::str(k) + mc::str(body) + data);
  if (k == 3) { std::unique_ptr<GoogleDocList> g(GoogleDocList::Create(new Client(&s))); string o = "unset"; bool ok = g->UploadSpreadsheet(data, "text/x", errs ? &o : NULL); r.eq(!fail, ok, "media:upload", ""); one(r, s, HTTP_POST, "http://docs.google.com/feeds/default/private/full", "Content-Type=text/x;", &data, "media:upload"); if (ok && errs) r.eq(B[body], o, "media:upload", ""); return; }
  std::unique_ptr<GoogleMapsData> g(GoogleMapsData::Create(new Client(&s))); string o = "unset"; kmldom::AtomEntryPtr e = k == 0 ? g->PostCsv("my map", data, errs ? &o : NULL) : k == 1 ? g->PostKml("my map", data) : g->PostMedia("my map", "text/y", data, errs ? &o : NULL); one(r, s, HTTP_POST, "http://maps.google.com/maps/feeds/maps/default/full", string("Content-Type=") + (k == 0 ? "text/csv" : k == 1 ? "application/vnd.google-earth.kml+xml" : "text/y") + ";Slug=my map;", &data, "media"); r.eq(!fail && body == 0, e.get() != NULL, "media:entry", B[body]); if (e.get()) r.eq("t", e->get_title(), "media:entry", ""); if (!fail && body && errs && k != 1) r.eq(B[body], o, "media:errors", "");
  string par = "q="; GoogleMapsData::AppendBoxParameter(1, -2.5, 180, -180, &par); r.eq("q=box=-180,-2.5,180,1", par, "media:box", ""); GoogleMapsData::AppendBoxParameter(1, 2, 3, 4, NULL); string u; s.log.clear(); s.fail.clear(); r.check(g->GetSearchFeed("http://s", "a=b", &u) && u == s.dflt, "media:search", ""); one(r, s, HTTP_GET, "http://s?a=b", "", NULL, "media:search"); s.log.clear(); kmldom::AtomFeedPtr ff = g->GetFeatureFeedByUri("http://ff"); r.eq(body == 2, ff.get() != NULL, "media:feature-feed", ""); one(r, s, HTTP_GET, "http://ff", "", NULL, "media:feature-feed");
}
// A long hierarchy, one post failing: the rest are still posted, once each, in order.
static void scale(Run& r) { static const int N[] = {9, 17, 33, 65, 129}; int n = N[r.pick(5)], shape = r.pick(3), fails = r.pick(5); SV want; string x; for (int i = 0; i < n; ++i) { string nm = "n" + mc::str(i), p = "<Placemark><name>" + nm + "</name><Point><coordinates>1,2</coordinates></Point></Placemark>"; want.push_back(nm); if (shape == 0) x += p; else if (shape == 1) x += "<Folder>" + p + "</Folder><NetworkLink/>"; else { x = i < 60 ? p + "<Folder>" + x + "</Folder>" : p + x; } } if (shape == 2) std::reverse(want.begin(), want.end()); string err; kmldom::FeaturePtr f = kmldom::AsFeature(kmldom::Parse("<Document>" + x + "</Document>", &err)); r.check(f.get() != NULL, "all:oracle", err); Server s(r); s.limit = 2 * n; int at = fails == 1 ? 0 : fails == 2 ? n / 2 : n - 1; if (fails == 4) for (int i = 0; i < n; ++i) s.fail.insert(i); else if (fails) s.fail.insert(at); string what = mc::str(n) + " placemarks, shape " + mc::str(shape) + " failing " + mc::str(fails); r.say(what); r.nontrivial(); r.step(); r.state(what); std::unique_ptr<GoogleMapsData> g(GoogleMapsData::Create(new Client(&s))); int got = g->PostPlacemarks(f, "http://h/full"); r.eq(fails == 4 ? 0 : n - (fails ? 1 : 0), got, "all:count", what); r.eq(want.size(), s.log.size(), "all:requests", what); for (int i = 0; i < n; ++i) { kmldom::AtomEntryPtr en = kmldom::AsAtomEntry(kmldom::ParseAtom(s.log[i].data, NULL)); r.check(en.get() != NULL, "all:entry", what); r.eq(want[i], en->get_title(), "all:order", what); } }
void mc_setup() {
  rule("every session, sign-in answer, page graph of up to 3 pages, small feature hierarchy and entry shape against a recording server: each call sends exactly the request it stands for, hands back exactly what was answered, and each feature is fetched or posted once, in order.; hierarchies of 9 to 129 placemarks in 3 shapes with failing posts");
  for (auto& v : {"GOOGLE_MAPS_DATA_SCOPE", "GOOGLE_SPREADSHEETS_DATA_SCOPE", "GOOGLE_DOC_LIST_SCOPE", "GOOGLE_PICASA_WEB_SCOPE"}) unsetenv(v);
  add("headers", headers, BOTH, 2); add("login", login, BOTH, 2); add("meta", meta); add("pages", pages, BOTH, 3); add("add-feature", add_feature, BOTH, 2); add("create-map", create_map, BOTH, 1); add("post-all", post_all, BOTH, 3); add("lookups", lookups, BOTH, 2); add("media", media);
  add("scale", scale, BOTH, 1);
}
