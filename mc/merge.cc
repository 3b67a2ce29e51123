// P11: merging.
#include "domgen.h"
#include "kml/engine/merge.h"
#include "kml/engine/clone.h"
using namespace mc; using namespace dg;

static void elements(const ElementPtr& e, std::set<const Element*>* out) {
  out->insert(e.get()); const Class* c = of_type(e->Type()); if (!c) return;
  for (auto& f : c->f) { if (f.kind == CHILD) { if (f.getc(e.get())) elements(f.getc(e.get()), out); } else if (f.kind == LIST) for (size_t i = 0; i < f.size(e.get()); ++i) elements(f.at(e.get(), i), out); }
}
static void verify(Run& r, const M& s, const M& t, bool fields_only = false) {
  ElementPtr se = to_dom(s), te = to_dom(t); string sb = kmldom::SerializeRaw(se), tb = kmldom::SerializeRaw(te), why; r.nontrivial(); r.say(sb + " into " + tb);
  M want = t; if (fields_only) { ref_fields(s, &want); kmlengine::MergeFields(se, te); } else { ref_merge(s, &want); kmlengine::MergeElements(se, te); }
  r.step(); r.eq(sb, kmldom::SerializeRaw(se), "merge:source-changed");
  r.check(equals(want, te, &why, true), "merge:result", why + " after " + sb + " into " + tb + " giving " + kmldom::SerializeRaw(te));
  Node n; string x, o = kmldom::SerializeRaw(te); r.check(xn::read(o, &n, &x) && match(want, n, &why), "merge:serialized", why + " in " + o);
  std::set<const Element*> a, b; elements(se, &a); elements(te, &b); for (auto p : b) r.check(!a.count(p), "merge:shares-element", sb + " into " + tb);
}
static const Class& any(Run& r) { return all()[r.pick(all().size())]; }
static void putv(M& m, int i, int which) {  // distinct values per side
  const Field& f = m.c->f[i]; V v = values(f, true);
  if (f.scalar()) m.sc[i] = (f.kind == STR || f.kind == ASTR || f.kind == TEXT) ? (which ? "src" : "tgt") : v[which % v.size()];
  else if (f.complex()) { M k(f.accept[which / 2 % f.accept.size()]); bool one = false; for (size_t q = 0; q < k.c->f.size() && !one; ++q) if (k.c->f[q].scalar()) { putv(k, q, which); one = true; } m.ch[i].push_back(k); }
  else m.sl[i].push_back(v[which % v.size()]);
}
// Presence of two fields on either side: all 16 combinations.
static void pair(Run& r, bool fields_only) {
  const Class& c = any(r); int n = c.f.size(); if (n < 1) r.prune(); int i = r.pick(n), j = r.pick(n); if (i > j) r.prune(); M s(c), t(c);
  if (fields_only && (c.f[i].complex() || c.f[j].complex())) r.prune();
  int bits = r.pick(i == j ? 4 : 16); if (bits & 1) putv(s, i, 1); if (bits & 2) putv(t, i, 0); if (bits & 4) putv(s, j, 1); if (bits & 8) putv(t, j, 0); verify(r, s, t, fields_only);
}
// Children: every accepted kind against every accepted kind of the same slot.
static void slot(Run& r) {
  const Class& c = any(r); vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex()) cx.push_back(i); if (cx.empty()) r.prune(); int k = r.of(cx);
  const Field& f = c.f[k]; M a = leaf(r.of(f.accept), "s"), b = leaf(r.of(f.accept), "t"); M s(c), t(c); s.ch[k].push_back(a); t.ch[k].push_back(b); if (f.list() && r.flip()) { s.ch[k].push_back(leaf(f.accept.back(), "s2")); } 
  if (f.list() && r.flip()) t.ch[k].push_back(leaf(f.accept[0], "t2"));
  verify(r, s, t);
}
// A child of the same kind on both sides with each pair of its own fields.
static void nested(Run& r) {
  const Class& c = any(r); vector<int> cx; for (size_t i = 0; i < c.f.size(); ++i) if (c.f[i].complex()) cx.push_back(i); if (cx.empty()) r.prune(); int k = r.of(cx);
  M a(r.of(c.f[k].accept)), b = a; int n = a.c->f.size(); if (!n) r.prune(); int i = r.pick(n), j = r.pick(n); putv(a, i, 1); putv(b, j, 0); M s(c), t(c); s.ch[k].push_back(a); t.ch[k].push_back(b); verify(r, s, t);
}
static void full(Run& r) { const Class& c = any(r); int skip_s = r.pick(c.f.size() + 1), skip_t = r.pick(c.f.size() + 1); M s(c), t(c); for (size_t i = 0; i < c.f.size(); ++i) { if ((int)i != skip_s) putv(s, i, 1); if ((int)i != skip_t) putv(t, i, 0); } verify(r, s, t); }
// Style subset lattice: all subsets of the sub styles and two fields each.
static void style(Run& r) {
  static const char* S[] = {"iconstyle", "labelstyle", "linestyle", "polystyle"}; static const char* K[] = {"IconStyle", "LabelStyle", "LineStyle", "PolyStyle"};
  M s("Style"), t("Style"); for (int i = 0; i < (thorough ? 4 : 3); ++i) for (int side = 0; side < 2; ++side) { int b = r.pick(4); if (!b) continue; M k(K[i]); if (b & 2) k.set("color", side ? "11111111" : "22222222"); if (b == 3) k.set("colormode", side ? "1" : "0"); (side ? s : t).add(S[i], k); }
  verify(r, s, t);
}
static void nulls(Run& r) { M m("Placemark"); m.set("name", "n"); ElementPtr e = to_dom(m); string b = kmldom::SerializeRaw(e); int k = r.pick(4); r.nontrivial(); r.step();
  if (k == 0) kmlengine::MergeElements(ElementPtr(), e); if (k == 1) kmlengine::MergeFields(ElementPtr(), e); if (k == 2) kmlengine::MergeFields(e, e); if (k == 3) { kmlengine::MergeFields(e, ElementPtr()); kmlengine::MergeElements(e, ElementPtr()); } r.eq(b, kmldom::SerializeRaw(e), "merge:null"); }
void mc_setup() {
  rule("for every class: all presence combinations of each pair of fields on source and target with distinct values, every accepted child kind against every other in each slot with one or two list items, a common child with each pair of its fields, full elements minus one field on each side; all combinations of sub styles; result compared field by field with a reference merge");
  add("pair", [](Run& r) { pair(r, false); }, BOTH, 2); add("pair_fields", [](Run& r) { pair(r, true); }, BOTH, 2); add("slot", slot, BOTH, 2); add("nested", nested, BOTH, 2); add("full", full, BOTH, 2); add("style", style, BOTH, 2); add("nulls", nulls, BOTH, 0);
}
