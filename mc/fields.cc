// P08: every field of every class under all sequences of set/clear.
#include "domgen.h"
using namespace mc; using namespace dg;

struct Op { int f; int kind; string v; };  // kind 0 set/append, 1 clear
static vector<Op> ops_of(const Class& c, bool two) {
  vector<Op> o;
  for (size_t i = 0; i < c.f.size(); ++i) {
    const Field& f = c.f[i];
    if (f.scalar()) { V v = values(f, true); o.push_back({(int)i, 0, v[0]}); if (two && v.size() > 1) o.push_back({(int)i, 0, v[1]}); }
    else if (f.complex()) o.push_back({(int)i, 0, "c"});
    else o.push_back({(int)i, 0, values(f, false)[0]});
    if (f.clear && !f.list()) o.push_back({(int)i, 1, ""});
  }
  return o;
}
static void apply(Run& r, M& m, const ElementPtr& e, const Op& o, int n) {
  const Field& f = m.c->f[o.f]; r.step();
  r.say((o.kind ? "clear_" : "set_") + f.api + (o.v.empty() ? "" : "(" + o.v + ")"));
  if (o.kind) { f.clear(e.get()); m.sc.erase(o.f); m.ch.erase(o.f); return; }
  if (f.scalar()) { f.set(e.get(), o.v); m.sc[o.f] = o.v; return; }
  if (f.complex()) {
    M k = leaf(f.accept[n % f.accept.size()], "c" + str(n)); if (f.kind == CHILD) m.ch.erase(o.f);
    m.ch[o.f].push_back(k); f.setc(e.get(), to_dom(k)); return;
  }
  f.set(e.get(), o.v); m.sl[o.f].push_back(o.v);
}
static void verify(Run& r, const M& m, const ElementPtr& e, bool ser) {
  string why; r.check(equals(m, e, &why, false), "fields:accessor", why);
  if (!ser) return;
  Node n; string x, o = kmldom::SerializeRaw(e); ws_in_empty() = false;
  r.check(xn::read(o, &n, &x), "fields:not-well-formed", x + " in " + o);
  r.check(match(m, n, &why), "fields:serialization", why + " in " + o);
}
static void seq(Run& r, int depth, bool two) {
  const Class& c = all()[r.pick(all().size())]; M m(c); ElementPtr e = c.make(); r.say("new " + c.cls);
  vector<Op> ops = ops_of(c, two); if (depth > 0 && ops.empty()) r.prune();
  verify(r, m, e, depth == 0); r.nontrivial();
  for (int d = 0; d < depth; ++d) { apply(r, m, e, r.of(ops), d); verify(r, m, e, d == depth - 1); }
}
// Two instances of one class do not share anything.
static void twins(Run& r) {
  const Class& c = all()[r.pick(all().size())]; M a(c), b(c); ElementPtr x = c.make(), y = c.make();
  vector<Op> ops = ops_of(c, false); if (ops.empty()) r.prune(); r.nontrivial();
  Op o = r.of(ops); apply(r, a, x, o, 0); verify(r, b, y, false); verify(r, a, x, false);
  Op p = r.of(ops); apply(r, b, y, p, 1); verify(r, b, y, true); verify(r, a, x, true);
}
// From an element with everything set: clear each pair, then set again.
static void full(Run& r) {
  const Class& c = all()[r.pick(all().size())]; M m(c); vector<Op> ops = ops_of(c, true); if (ops.empty()) r.prune();
  for (size_t i = 0; i < c.f.size(); ++i) put(m, i, "f");
  ElementPtr e = to_dom(m); verify(r, m, e, false); r.nontrivial();
  int n = thorough ? 2 : 1;
  for (int i = 0; i < n; ++i) { apply(r, m, e, r.of(ops), i); verify(r, m, e, i == n - 1); }
}
// Every value of every scalar: rich values, each followed by each other.
static void vals(Run& r) {
  const Class& c = all()[r.pick(all().size())]; vector<int> k; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].scalar()) k.push_back(i);
  if (k.empty()) r.prune(); int f = r.of(k); V v = values(c.f[f], true); M m(c); ElementPtr e = c.make(); r.nontrivial();
  for (int d = 0; d < 2; ++d) { apply(r, m, e, {f, 0, r.of(v)}, d); verify(r, m, e, true); }
}
void mc_setup() {
  rule("for every class of the schema table, every sequence of set, append and clear operations over all its fields up to the depth, from an empty element, from a full one and on twin elements; after every operation every accessor of the element is compared with the model and the final serialization is compared as an infoset");
  assume("mc/schema.h is the reference schema (fields, defaults, enumerations)");
  add("new", [](Run& r) { seq(r, 0, false); }, BOTH, 1);
  add("seq1", [](Run& r) { seq(r, 1, true); });
  add("seq2", [](Run& r) { seq(r, 2, true); }, BOTH, 2);
  add("seq3", [](Run& r) { seq(r, 3, false); }, THOROUGH, 3);
  add("twins", twins); add("full", full); add("values", vals, BOTH, 2);
}
