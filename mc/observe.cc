// P06: parser observers.
#include "domgen.h"
#include "kml/dom/parser.h"
#include "kml/dom/parser_observer.h"
#include "kml/engine/kml_stream.h"
#include <boost/scoped_ptr.hpp>
using namespace mc; using namespace dg; using kmldom::ParserObserver;

// Document model: a tree with sequence numbers; text kept simple.
struct T { string label; vector<T> kid; bool empty_tag = false; };
static string name_of(const string& l) { return l.substr(0, l.find(' ')); }
static bool known(const string& n) { return n != "foo"; }
static string xml(const T& t, int skip, int* n) {  // skip: number of the known element to leave out (start order), -1 none
  int me = -1; if (known(name_of(t.label))) me = (*n)++;
  bool raw = name_of(t.label) == "description" || !known(name_of(t.label));
  string o = "<" + t.label; string body; static int dummy; for (auto& k : t.kid) { int z = 100000; body += xml(k, raw ? -1 : skip, raw ? &z : n); }
  if (name_of(t.label) == "name") body += "n"; if (name_of(t.label) == "coordinates") body += "1,2";
  if (t.empty_tag && body.empty()) o += "/>"; else o += ">" + body + "</" + name_of(t.label) + ">";
  return me == skip && me >= 0 ? "" : o;
}
struct Ev { char k; int e, p; };
static string evs(const vector<Ev>& v) { string s; for (auto& e : v) { s += e.k; s += str(e.e); if (e.k != 'N') s += "<" + str(e.p); s += ' '; } return s; }
static void expect(const T& t, int parent, int* n, vector<Ev>* o) {
  if (!known(name_of(t.label))) return; int me = (*n)++; o->push_back({'N', me, -1}); if (name_of(t.label) != "description") for (auto& k : t.kid) expect(k, me, n, o);
  if (parent >= 0) { o->push_back({'E', me, parent}); o->push_back({'A', me, parent}); }
}
struct Obs : ParserObserver {
  vector<Ev> log; vector<kmldom::Element*> seen; vector<ElementPtr> keep; int refuse = -1; string bad; int times = 0;
  int id(const ElementPtr& e) { for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == e.get()) return i; bad += "unannounced element;"; return -7; }
  bool put(char k, int e, int p) { bool no = (int)log.size() == refuse; log.push_back({k, e, p}); if (no) ++times; return !no; }
  bool NewElement(const ElementPtr& e) { for (auto x : seen) if (x == e.get()) bad += "announced twice;"; seen.push_back(e.get()); keep.push_back(e); return put('N', seen.size() - 1, -1); }
  bool EndElement(const ElementPtr& p, const ElementPtr& c) { if (c->GetParent().get()) bad += "already has a parent at its end;"; return put('E', id(c), id(p)); }
  bool AddChild(const ElementPtr& p, const ElementPtr& c) { return put('A', id(c), id(p)); }
};
static int forest(Run& r, const vector<string>& L, int budget, int depth, vector<T>* o, bool empties) {
  while (budget > 0) { int k = r.pick(L.size() + 1); if (k == 0) return budget; T t; t.label = L[k - 1]; --budget; if (depth > 0) budget = forest(r, L, budget, depth - 1, &t.kid, empties); if (t.kid.empty() && empties && name_of(t.label) != "name" && name_of(t.label) != "coordinates") t.empty_tag = true; o->push_back(t); }
  return 0;
}
static const vector<string>& labels() { static vector<string> v = {"Folder", "Placemark id=\"p\"", "name", "description", "foo", "Point", "coordinates", "Snippet", "Style"}; return v; }
struct Res { ElementPtr e; string err; };
static Res go(const string& x, const vector<Obs*>& os, int way) {
  Res z; if (way == 0) { kmldom::Parser p; for (auto o : os) p.AddObserver(o); z.e = p.Parse(x, &z.err); } else if (way == 1) { kmldom::Parser p; for (auto o : os) p.AddObserver(o); z.e = p.ParseNS(x, &z.err); } else { std::istringstream is(x); boost::scoped_ptr<kmlengine::KmlStream> s(kmlengine::KmlStream::ParseFromIstream(&is, &z.err, os[0])); if (s.get()) z.e = s->get_root(); }
  return z;
}
static void exercise(Run& r, const T& root, bool empties, int nobs_max, int ways, bool few) {
  int n = 0; string x = xml(root, -1, &n); vector<Ev> want; n = 0; expect(root, -1, &n, &want); r.nontrivial(); r.say(x);
  for (auto& k : root.kid) if (false) (void)k;
  int way = r.pick(ways), nobs = way == 2 ? 1 : 1 + r.pick(nobs_max); vector<Obs> os(nobs); vector<Obs*> op; for (auto& o : os) op.push_back(&o);
  int refuse = few ? r.of({-1, 0, 1, (int)want.size() / 3, (int)want.size() / 2, (int)want.size() / 2 + 1, (int)want.size() / 2 + 2, (int)want.size() - 3, (int)want.size() - 2, (int)want.size() - 1}) : r.pick(want.size() + 1) - 1, who = refuse >= 0 && nobs > 1 ? r.pick(nobs) : 0; if (refuse >= 0) os[who].refuse = refuse; r.step();
  string plain; { ElementPtr e = kmldom::Parse(x, NULL); if (e) plain = kmldom::SerializeRaw(e); } r.check(!plain.empty(), "observe:base-parse", x);
  Res z = go(x, op, way); if (!(empties && refuse >= 0)) for (auto& o : os) r.eq(string(""), o.bad, "observe:callback", x);
  if (refuse < 0) { r.check(z.e.get() != NULL, "observe:parse", z.err + x); for (auto& o : os) r.eq(evs(want), evs(o.log), "observe:sequence", x); r.eq(plain, kmldom::SerializeRaw(z.e), "observe:changes-result", x); return; }
  char k = want[refuse].k; vector<Ev> pre(want.begin(), want.begin() + refuse + 1);
  if (k == 'N' || k == 'A') {
    r.check(z.e.get() == NULL && !z.err.empty(), string("observe:refused-") + k + "-continues", x + " event " + evs(pre));
    for (int i = 0; i < nobs; ++i) { vector<Ev> w = pre; if (i > who) w.pop_back(); vector<Ev> g = os[i].log; bool ok = evs(w) == evs(g); if (!ok && empties && g.size() > w.size()) { bool tail = true; for (size_t j = w.size(); j < g.size(); ++j) tail = tail && g[j].k != 'N' && g[j].e <= want[refuse].e; g.resize(w.size()); ok = tail && evs(w) == evs(g); } if (!ok && i > who) { w = pre; ok = evs(w) == evs(os[i].log); } r.check(ok, string("observe:after-refused-") + k, x + " want " + evs(pre) + " got " + evs(os[i].log) + " observer " + str(i)); }
  } else {
    r.check(z.e.get() != NULL, "observe:refused-end-stops", z.err + " " + x + " event " + evs(pre)); int m = 0; string less = xml(root, want[refuse].e, &m); ElementPtr e = kmldom::Parse(less, NULL); r.eq(kmldom::SerializeRaw(e), kmldom::SerializeRaw(z.e), "observe:refused-end-result", x + " without element " + str(want[refuse].e));
    for (int i = 0; i < nobs; ++i) { string s; for (size_t j = 0; j < os[i].log.size(); ++j) { Ev e = os[i].log[j]; if (e.e == want[refuse].e && (e.k == 'A' || (e.k == 'E' && i > who))) { if (e.k == 'A') r.fail("observe:told-of-addition", x + " refused element reported as added"); continue; } s += evs({e}); } string w; for (auto& e : want) { if (e.e == want[refuse].e && (e.k == 'A' || (e.k == 'E' && i > who))) continue; w += evs({e}); } r.eq(w, s, "observe:refused-end-sequence", x); r.check(os[i].times <= 1, "observe:repeat", ""); }
  }
}
static void run(Run& r, int nodes, int nobs_max, int ways) { T root; root.label = r.of({string("Document"), string("kml")}); bool empties = r.flip(); forest(r, labels(), nodes, 3, &root.kid, empties); exercise(r, root, empties, nobs_max, ways, false); }
// Many siblings, deep nests, and many observers.
static void scale(Run& r) { static const int N[] = {9, 33, 65, 129, 257}; int n = N[r.pick(thorough ? 5 : 4)], shape = r.pick(4); T root; root.label = "Document"; auto leaf = [&](int i) { T t; t.label = i % 3 == 0 ? "Placemark id=\"p" + str(i) + "\"" : i % 3 == 1 ? "foo" : "Style"; return t; }; if (shape == 0) for (int i = 0; i < n; ++i) root.kid.push_back(leaf(i)); else if (shape == 1) { if (n > 65) r.prune(); T t = leaf(0); for (int i = 0; i < n; ++i) { T u; u.label = "Folder"; u.kid.push_back(t); t = u; } root.kid.push_back(t); } else if (shape == 2) for (int i = 0; i < n; ++i) { T u; u.label = i % 2 ? "Folder" : "Placemark"; T k; k.label = "name"; u.kid.push_back(k); root.kid.push_back(u); } else { T u; u.label = "Folder"; for (int i = 0; i < n; ++i) { T k; k.label = "Point"; T c; c.label = "coordinates"; T p; p.label = "Placemark"; k.kid.push_back(c); p.kid.push_back(k); u.kid.push_back(p); } root.kid.push_back(u); } exercise(r, root, false, 3, 3, true); }
// One parser object used again: observers are told again of everything.
static void again(Run& r) {
  T root; root.label = "Document"; forest(r, labels(), 3, 2, &root.kid, false); int n = 0; string x = xml(root, -1, &n); vector<Ev> want; n = 0; expect(root, -1, &n, &want); static const vector<string> B = {"<kml>", "<foo/>", "", "<kml/>", "<kml><Placemark><name>a</name></Placemark></kml>"}; string b = r.of(B); kmldom::Parser p; Obs o, q; p.AddObserver(&o); p.AddObserver(&q); r.nontrivial(); r.step(2); string err; ElementPtr first = p.Parse(b, &err); size_t base = o.seen.size(), at = o.log.size(); ElementPtr e = p.Parse(x, &(err = "")); r.check(e.get() != NULL, "observe:again", err); vector<Ev> got(o.log.begin() + at, o.log.end()); for (auto& v : got) { v.e -= base; if (v.p >= 0) v.p -= base; } r.eq(evs(want), evs(got), "observe:again-sequence", b + " then " + x); r.eq(evs(o.log), evs(q.log), "observe:observers-differ", x);
}
// Every class as child of every class: told once each, whether or not KML allows it there.
static void pairs(Run& r) {
  const Class& a = all()[r.pick(all().size())]; const Class& b = all()[r.pick(all().size())]; if (a.cls == "IconStyleIcon" || b.cls == "IconStyleIcon") r.prune(); string x = "<" + a.tag + "><" + b.tag + "></" + b.tag + "></" + a.tag + ">"; Obs o; vector<Obs*> v = {&o}; int refuse = r.pick(5) - 1; o.refuse = refuse; r.nontrivial(); r.step(); Res z = go(x, v, 0); string full = "N0 N1 E1<0 A1<0 "; r.eq(string(""), o.bad, "observe:callback", x);
  if (refuse < 0) { r.eq(full, evs(o.log), "observe:pair-sequence", x); r.check(z.e.get() != NULL, "observe:pair", z.err); } else if (refuse == 2) { r.check(z.e.get() != NULL, "observe:pair-end", x); r.eq(kmldom::SerializeRaw(kmldom::Parse("<" + a.tag + "/>", NULL)), kmldom::SerializeRaw(z.e), "observe:pair-refused", x); } else r.check(!z.e && !z.err.empty() && (int)o.log.size() == refuse + 1, "observe:pair-stop", x + evs(o.log));
}
void mc_setup() {
  rule("every forest of up to 3 (4) elements over known complex, simple, text and unknown labels in a Document or kml, with one to three observers, through Parser, namespace parser and stream parser; no refusal and a refusal at every event by every observer; expected event sequence from the tree; every pair of classes as parent and child with a refusal at each event; a parser object used twice; documents of 9 to 129 elements wide and deep with a refusal at 10 events");
  assume("when the tag of the refused element is an empty-element tag, its own end and addition may still be reported; observers registered after the refusing one need not be told of the refused event");
  add("f2", [](Run& r) { run(r, 2, 3, 3); }); add("f3", [](Run& r) { run(r, 3, 1, 1); }); add("f3t", [](Run& r) { run(r, 3, 3, 3); }, THOROUGH); add("f4", [](Run& r) { run(r, 4, 1, 1); }, THOROUGH); add("again", again); add("pairs", pairs);
  add("scale", scale, BOTH, 1);
}
