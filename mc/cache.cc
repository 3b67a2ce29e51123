// P17: URL caches against a reference cache, over all operation histories with
// per-fetch fault injection.
#include "core.h"
#include "zipmk.h"
#include "kml/base/net_cache.h"
#include "kml/base/referent.h"
#include "kml/base/memory_file.h"
#include "kml/engine.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kmz_cache.h"
#include "kml/engine/kml_uri_internal.h"
#include <list>
using namespace mc;
using std::string; using std::vector; using std::map;

namespace {
int live_items = 0;
class Item : public kmlbase::Referent {
 public:
  static Item* CreateFromString(const string& d) { if (d == "BAD") return NULL; return new Item(d); }
  Item(const string& d) : data(d) { ++live_items; }
  ~Item() { --live_items; }
  string data;
};
typedef boost::intrusive_ptr<Item> ItemPtr;
class Net : public kmlbase::NetFetcher {
 public:
  virtual bool FetchUrl(const string& url, string* data) const {
    log.push_back(url);
    map<string,string>::const_iterator i = web.find(url);
    if (i == web.end() || down) return false;
    *data = i->second;
    return true;
  }
  map<string,string> web; bool down = false;
  mutable vector<string> log;
};

// Reference: insertion-ordered list.
struct RefCache {
  size_t cap; std::list<std::pair<string, ItemPtr> > l;
  ItemPtr find(const string& u) { for (auto& e : l) if (e.first == u) return e.second; return NULL; }
  bool save(const string& u, const ItemPtr& i) {
    if (find(u)) return false;
    if (cap == 0) return true;
    if (l.size() >= cap) l.pop_front();
    l.push_back(std::make_pair(u, i)); return true;
  }
  bool del(const string& u) { for (auto i = l.begin(); i != l.end(); ++i) if (i->first == u) { l.erase(i); return true; } return false; }
};

void netcache(Run& r, int nurl, int depth, int ncap) {
  static const char* U[] = {"u/c", "u/a", "u/b", "u/0"};
  size_t cap = 1 + r.pick(ncap);
  {
  Net net;
  for (int i = 0; i < nurl; ++i) net.web[U[i]] = string("data") + char('0'+i);
  kmlbase::NetCache<Item> c(&net, cap);
  RefCache m; m.cap = cap;
  vector<ItemPtr> held;  // pointers outlive eviction
  vector<string> heldwant;
  for (int d = 0; d < depth; ++d) {
    int op = r.pick(4*nurl + 1);
    r.step();
    if (op == 4*nurl) {
      r.say("RemoveOldest");
      bool want = !m.l.empty(); if (want) m.l.pop_front();
      r.eq(want, c.RemoveOldest(), "cache:removeoldest-result");
    } else {
      string u = U[op % nurl];
      switch (op / nurl) {
        case 0: {
          int net_state = r.pick(3);  // up, down, serves garbage
          r.say("Fetch " + u + (net_state == 0 ? " ok" : net_state == 1 ? " net-fail" : " unparsable"));
          net.down = net_state == 1;
          string keep = net.web[u];
          string ver = keep + "v" + str(d);
          net.web[u] = net_state == 2 ? string("BAD") : ver;
          size_t nlog = net.log.size();
          ItemPtr got = c.Fetch(u);
          net.web[u] = keep; net.down = false;
          ItemPtr res = m.find(u);
          if (res) {
            r.check(got == res, "cache:hit-not-same-item", "Fetch of a resident URL did not return the resident item");
            r.eq(nlog, net.log.size(), "cache:hit-refetched");
          } else {
            r.eq(nlog + 1, net.log.size(), "cache:miss-fetch-count");
            r.eq(u, net.log.back(), "cache:wrong-url-fetched");
            if (net_state == 0) {
              r.check(got != NULL, "cache:fetch-lost", "successful fetch returned nothing");
              r.eq(ver, got->data, "cache:fetch-wrong-data");
              m.save(u, got); held.push_back(got); heldwant.push_back(ver);
            } else {
              r.check(got == NULL, "cache:failed-fetch-returned-item", "failed fetch returned an item");
            }
          }
          break; }
        case 1: {
          r.say("Save " + u);
          ItemPtr it = new Item("saved" + str(d));
          held.push_back(it); heldwant.push_back(it->data);
          bool want = m.save(u, it);
          r.eq(want, c.Save(u, it), "cache:save-result");
          break; }
        case 2:
          r.say("Delete " + u);
          r.eq(m.del(u), c.Delete(u), "cache:delete-result");
          break;
        case 3: {
          r.say("LookUp " + u);
          size_t nlog = net.log.size();
          r.check(c.LookUp(u) == m.find(u), "cache:lookup", "LookUp " + u);
          r.eq(nlog, net.log.size(), "cache:lookup-fetched");
          break; }
      }
    }
    // State equivalence after every operation.
    r.eq(m.l.size(), c.Size(), "cache:size");
    r.check(c.Size() <= cap, "cache:over-capacity", "size exceeds the limit");
    string st = str(cap) + "|";
    for (int i = 0; i < nurl; ++i) {
      ItemPtr a = m.find(U[i]);
      r.check(c.LookUp(U[i]) == a, "cache:content", string("cache content differs for ") + U[i]);
    }
    for (auto& e : m.l) st += e.first + "=" + e.second->data.substr(0,1) + ";";
    r.state(st);
    for (size_t i = 0; i < held.size(); ++i) r.eq(heldwant[i], held[i]->data, "cache:held-item-changed");
  }
  if (m.l.size() >= 1) r.nontrivial();
  }
  r.eq(0, live_items, "cache:item-leak");
}

// ---- KMZ-aware cache ---------------------------------------------------
// A small web.  The reference answers "what is the content of document D as
// seen from base B" from first principles.
string kml(const string& name) { return "<kml><Placemark><name>" + name + "</name></Placemark></kml>"; }

struct Target { const char* base; const char* target; };
// base, target, first candidate (fetch url, path in kmz or "-"), second candidate
struct Ref { const char* base; const char* target; const char* kmz; const char* path; const char* plain; };
// kmz==0: plain fetch of `plain`.  kmz!=0: read `path` ("" = default kml) in
// `kmz`, falling back to fetching `plain` if that entry is absent.
const Ref kRefs[] = {
  {"http://h/d/a.kml", "http://h/d/a.kml", 0, 0, "http://h/d/a.kml"},
  {"http://h/d/a.kml", "b.kml", 0, 0, "http://h/d/b.kml"},
  {"http://h/d/a.kml", "b.kml#s1", 0, 0, "http://h/d/b.kml"},
  {"http://h/d/a.kml", "b.kml#s2", 0, 0, "http://h/d/b.kml"},
  {"http://h/d/a.kml", "m.kmz", "http://h/d/m.kmz", "", 0},
  {"http://h/d/a.kml", "m.kmz/in/x.kml", "http://h/d/m.kmz", "in/x.kml", 0},
  {"http://h/d/m.kmz/doc.kml", "in/x.kml", "http://h/d/m.kmz", "in/x.kml", "http://h/d/in/x.kml"},
  {"http://h/d/m.kmz/in/x.kml", "../doc.kml", "http://h/d/m.kmz", "doc.kml", "http://h/doc.kml"},
  {"http://h/d/m.kmz/doc.kml", "b.kml", "http://h/d/m.kmz", "b.kml", "http://h/d/b.kml"},
  {"http://h/d/m.kmz/doc.kml", "http://h/d/b.kml", 0, 0, "http://h/d/b.kml"},
  {"http://h/d/a.kml", "bad.kml", 0, 0, "http://h/d/bad.kml"},
  {"http://h/d/a.kml", "nokml.kmz", "http://h/d/nokml.kmz", "", 0},
  {"http://h/d/a.kml", "q.kml?x=1", 0, 0, "http://h/d/q.kml?x=1"},
};
const int kNRefs = sizeof(kRefs)/sizeof(kRefs[0]);

void kmlcache(Run& r, int depth, int ncap) {
  size_t cap = 1 + r.pick(ncap);
  Net net;
  vector<zipmk::Entry> m; m.push_back(zipmk::E("readme.txt","r")); m.push_back(zipmk::E("doc.kml", kml("mdoc"), 8)); m.push_back(zipmk::E("in/x.kml", kml("mx")));
  map<string, map<string,string> > kmzs;
  for (auto& e : m) kmzs["http://h/d/m.kmz"][e.name] = e.data;
  vector<zipmk::Entry> nk; nk.push_back(zipmk::E("img.png","P"));
  for (auto& e : nk) kmzs["http://h/d/nokml.kmz"][e.name] = e.data;
  net.web["http://h/d/a.kml"] = kml("a"); net.web["http://h/d/b.kml"] = kml("b");
  net.web["http://h/d/q.kml?x=1"] = kml("q1"); net.web["http://h/d/q.kml"] = kml("q0");
  net.web["http://h/d/bad.kml"] = "<kml><Placemark></kml>";
  net.web["http://h/d/m.kmz"] = zipmk::make(m); net.web["http://h/d/nokml.kmz"] = zipmk::make(nk);
  kmlengine::KmlCache cache(&net, cap);
  vector<kmlengine::KmlFilePtr> held; vector<string> heldname;
  std::list<string> res_raw, res_kmz;           // resident raw/kmz downloads (reference FIFO)
  std::list<std::pair<string, kmlengine::KmlFilePtr> > res_kml;
  auto has = [](std::list<string>& l, const string& u) { for (auto& e : l) if (e == u) return true; return false; };
  auto put = [&](std::list<string>& l, const string& u) { if (l.size() >= cap) l.pop_front(); l.push_back(u); };
  for (int d = 0; d < depth; ++d) {
    const Ref& ref = kRefs[r.pick(kNRefs)];
    bool data_op = r.flip();
    bool down = r.flip();
    r.step();
    r.say(string(data_op ? "FetchData " : "FetchKml ") + ref.base + " + " + ref.target + (down ? " (net down)" : ""));
    net.down = down;
    // Reference: the downloads this needs, and the content.
    bool ok = false; string content; string url;
    vector<string> want_log;
    kmlengine::KmlFilePtr resident;
    auto raw = [&](const string& u) -> bool {
      if (has(res_raw, u)) { content = net.web[u]; return true; }
      want_log.push_back(u);
      if (down || !net.web.count(u)) return false;
      put(res_raw, u); content = net.web[u]; return true;
    };
    string key = ref.kmz ? string(ref.kmz) + (*ref.path ? string("/") + ref.path : "") : string(ref.plain);
    if (!data_op) for (auto& e : res_kml) if (e.first == key) resident = e.second;
    if (resident) { ok = true; }
    else if (!ref.kmz) { ok = raw(ref.plain); url = ref.plain; }
    else {
      bool have = has(res_kmz, ref.kmz);
      if (!have) { want_log.push_back(ref.kmz); if (!down) { put(res_kmz, ref.kmz); have = true; } }
      if (have) {
        map<string,string>& z = kmzs[ref.kmz];
        string p = ref.path;
        if (p.empty()) p = string(ref.kmz).find("/m.kmz") != string::npos ? "doc.kml" : "";
        if (!p.empty() && z.count(p)) { ok = true; content = z[p]; url = string(ref.kmz) + "/" + p; }
        else if (ref.plain) { ok = raw(ref.plain); url = ref.plain; }
      }
    }
    net.log.clear();
    if (data_op) {
      string got = "untouched";
      bool g = cache.FetchDataRelative(ref.base, ref.target, &got);
      r.eq(ok, g, "kmlcache:data-result");
      if (ok) r.eq(content, got, "kmlcache:data-content");
    } else {
      kmlengine::KmlFilePtr k = cache.FetchKmlRelative(ref.base, ref.target);
      bool parses = ok && content.find("</Placemark>") != string::npos;
      if (resident) r.check(k == resident, "kmlcache:resident-not-shared", "a cached KML document was not returned from the cache");
      else {
        r.eq(parses, k != NULL, "kmlcache:kml-result");
        if (k) {
          r.eq(url, k->get_url(), "kmlcache:document-url");
          r.check(k->get_kml_cache() == &cache, "kmlcache:backpointer", "document not linked to its cache");
          string nm = content.substr(content.find("<name>")+6); nm = nm.substr(0, nm.find("<"));
          kmldom::KmlPtr kk = kmldom::AsKml(k->get_root());
          r.check(kk && kk->has_feature() && kk->get_feature()->get_name() == nm, "kmlcache:wrong-document", "document content differs");
          // A document already cached under this resolved URL?
          bool already = false; for (auto& e : res_kml) if (e.first == url) already = true;
          if (!already) { if (res_kml.size() >= cap) res_kml.pop_front(); res_kml.push_back(std::make_pair(url, k)); }
          held.push_back(k); heldname.push_back(nm);
        }
      }
    }
    string wl, gl; for (auto& u : want_log) wl += u + " "; for (auto& u : net.log) gl += u + " ";
    r.eq(wl, gl, "kmlcache:network-requests");
    string st = str(cap); for (auto& u : res_raw) st += "|" + u; st += "#"; for (auto& u : res_kmz) st += "|" + u; st += "#"; for (auto& u : res_kml) st += "|" + u.first;
    r.state(st);
  }
  for (size_t i = 0; i < held.size(); ++i)
    r.eq(heldname[i], kmldom::AsKml(held[i]->get_root())->get_feature()->get_name(), "kmlcache:held-document-changed");
  r.nontrivial();
}
}  // namespace

// Long histories: strides over more URLs than fit, around powers of two.
void netlong(Run& r) {
  static const size_t CAPS[] = {0, 1, 2, 3, 7, 8, 9, 16, 17, 50, 64, 65, 100, 255, 256, 257}; size_t cap = CAPS[r.pick(16)]; int urls = r.pick(4), stride = r.of({1, 2, 3, 7, 11}); size_t nu = urls == 0 ? cap + 1 : urls == 1 ? cap * 2 + 1 : urls == 2 ? cap + 5 : std::max<size_t>(cap, 1); size_t len = r.flip() ? 700 : thorough ? 140000 : cap < 4 ? 70000 : 3000; int del = r.pick(2);
  Net net; vector<string> U; for (size_t i = 0; i < nu; ++i) { U.push_back("http://h/" + str((i * 37) % nu) + "_" + str(i)); net.web[U.back()] = "d" + str(i); } kmlbase::NetCache<Item> c(&net, cap); std::list<string> l; map<string, std::list<string>::iterator> in; r.nontrivial(); size_t asked = 0, at = 0;
  for (size_t k = 0; k < len; ++k) { at = (at + stride + (k % 13 == 0)) % nu; const string& u = U[at]; r.step(); bool res = in.count(u); ItemPtr g = c.Fetch(u); r.check(g && g->data == net.web[u], "cache:long-data", u); if (!res) { ++asked; if (cap) { if (l.size() >= cap) { in.erase(l.front()); l.pop_front(); } l.push_back(u); in[u] = --l.end(); } } if (net.log.size() != asked) r.check(false, "cache:long-fetches", "capacity " + str(cap) + " of " + str(nu) + " urls, request " + str(k)); if (del && k % 17 == 5) { const string& x = U[(at + 2) % nu]; bool h = in.count(x); r.check(c.Delete(x) == h, "cache:long-delete", str(k)); if (h) { l.erase(in[x]); in.erase(x); } } r.check(c.Size() == l.size(), "cache:long-size", str(k)); }
  for (auto& u : U) r.check((c.LookUp(u) != NULL) == (in.count(u) > 0), "cache:long-resident", u);
}
void mc_setup() {
  rule("Histories of 700 to 70000 (140000) requests in five strides over caches of 0 to 257 items; all sequences of cache operations up to the stated depth over a fixed URL alphabet, capacity 1..N, with each fetch independently succeeding, failing, or serving undecodable data; a sequence is non-trivial if it leaves an item cached or performs a fetch. Each prefix is compared with a FIFO reference cache.");
  assume("Reference model: insertion-ordered FIFO with capacity; network is a stub that serves fixed bytes");
  add("net2", [](Run& r) { netcache(r, 2, thorough ? 6 : 5, 3); });
  add("netlong", netlong, BOTH, 2);
  add("net3", [](Run& r) { netcache(r, 3, thorough ? 5 : 4, 3); });
  add("kmlcache", [](Run& r) { kmlcache(r, thorough ? 4 : 3, 2); }, BOTH, 3);
  add("kmlcache2", [](Run& r) { kmlcache(r, 2, 3); });
}
