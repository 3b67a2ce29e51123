// P30: schema compilation against an independent reading of the schema tree.
#include "core.h"
#include "xmlnode.h"
#include "kml/xsd/xsd_file.h"
#include "kml/xsd/xsd_util.h"
#include "kml/xsd/xsd_schema.h"
#include "kml/xsd/xsd_complex_type.h"
#include "kml/xsd/xsd_simple_type.h"
#include "kml/xsd/xsd_primitive_type.h"
#include "kml/xsd/xst_parser.h"
#include "kml/base/attributes.h"
#include <algorithm>
#include <memory>
using namespace mc; using std::string; using std::vector; using std::map; using xn::Node;
namespace x = kmlxsd;
typedef vector<string> SV;

// ---- independent model --------------------------------------------------
struct El { string name, type, def, group; bool abstract, isref; };
struct Ty { bool complex; string name, base; vector<El> seq; SV en; };
struct Model { bool schema; string ns, prefix; map<string, El> el; map<string, Ty> ty; };
static bool isType(const Node& n) { return n.name == "complexType" || n.name == "simpleType"; }
static string at(const Node& n, const string& k) { auto i = n.attr.find(k); return i == n.attr.end() ? "" : i->second; }
static bool has(const Node& n, const string& k) { return n.attr.count(k) > 0; }
static bool element(const Node& n, El* e) { e->abstract = e->isref = false; if (has(n, "name")) { e->name = at(n, "name"); e->type = at(n, "type"); e->def = at(n, "default"); e->group = at(n, "substitutionGroup"); string a = at(n, "abstract"); e->abstract = a == "true" || a == "1"; return true; } if (has(n, "ref")) { e->name = at(n, "ref"); e->isref = true; return true; } return false; }
static void content(const Node& n, Ty* t) { for (auto& k : n.kid) { if (isType(k)) continue; El e; if (k.name == "element" && t->complex && element(k, &e)) t->seq.push_back(e); if (k.name == "extension" && t->complex && has(k, "base")) t->base = at(k, "base"); if (k.name == "restriction" && !t->complex && has(k, "base")) t->base = at(k, "base"); if (k.name == "enumeration" && !t->complex && has(k, "value")) t->en.push_back(at(k, "value")); content(k, t); } }
static Model read(const Node& root) {
  Model m; m.schema = false; string ns = at(root, "targetNamespace"); if (!ns.empty()) for (auto& a : root.attr) if (a.first.compare(0, 6, "xmlns:") == 0 && a.first.size() > 6 && a.second == ns && !m.schema) { m.schema = true; m.ns = ns; m.prefix = a.first.substr(6); }
  for (auto& k : root.kid) { El e; if (k.name == "element" && element(k, &e)) m.el[e.name] = e; if (isType(k) && has(k, "name")) { Ty t; t.complex = k.name == "complexType"; t.name = at(k, "name"); content(k, &t); m.ty[t.name] = t; } }
  return m;
}
static const SV& PRIM() { static const SV v = {"string", "boolean", "decimal", "float", "double", "duration", "dateTime", "time", "date", "gYearMonth", "gYear", "gMonthDay", "gDay", "gMonth", "hexBinary", "base64Binary", "anyURI", "QName", "NOTATION", "integer", "long", "int"}; return v; }
static bool prim(const string& s) { return std::count(PRIM().begin(), PRIM().end(), s) > 0; }
static bool local(const Model& m, const string& q, string* n) { if (!m.schema || q.size() <= m.prefix.size() + 1 || q.substr(0, m.prefix.size() + 1) != m.prefix + ":") return false; *n = q.substr(m.prefix.size() + 1); return true; }
static const Ty* typeOf(const Model& m, const string& q) { string n; if (prim(q) || !local(m, q, &n)) return NULL; auto i = m.ty.find(n); return i == m.ty.end() ? NULL : &i->second; }
static const Ty* baseOf(const Model& m, const Ty& t) { const Ty* b = typeOf(m, t.base); return b && b->complex ? b : NULL; }

// ---- comparison ---------------------------------------------------------
static string show(const El& e) { return e.name + (e.isref ? "*" : "") + (e.abstract ? "!" : "") + "(" + e.type + "," + e.def + "," + e.group + ")"; }
static string show(const x::XsdElementPtr& e) { if (!e) return "NULL"; return e->get_name() + (e->is_ref() ? "*" : "") + (e->is_abstract() ? "!" : "") + "(" + e->get_type() + "," + e->get_default() + "," + e->get_substitution_group() + ")"; }
static string show(const x::XsdElementVector& v, bool sorted = false) { SV s; for (auto& e : v) s.push_back(show(e)); if (sorted) std::sort(s.begin(), s.end()); string o; for (auto& i : s) o += i + " "; return o; }
static string join(SV s, bool sorted = false) { if (sorted) std::sort(s.begin(), s.end()); string o; for (auto& i : s) o += i + " "; return o; }
static void judge(Run& r, const Model& m, const x::XsdFile& f, const string& ctx) {
  r.eq(m.schema ? m.ns : "", f.get_target_namespace(), "xsd:namespace", ctx); r.eq(m.schema ? m.prefix : "", f.get_target_namespace_prefix(), "xsd:prefix", ctx);
  x::XsdElementVector v; f.GetAllElements(&v); SV want; for (auto& e : m.el) want.push_back(show(e.second)); r.eq(join(want, true), show(v, true), "xsd:elements", ctx);
  x::XsdTypeVector tv; f.GetAllTypes(&tv); SV tn; for (auto& t : tv) tn.push_back(t ? t->get_name() : "NULL"); want.clear(); for (auto& t : m.ty) want.push_back(t.first); r.eq(join(want, true), join(tn, true), "xsd:types", ctx);
  r.check(!f.FindType("nope") && !f.FindElement("nope") && !f.FindType("") == !m.ty.count("") && !f.ResolveRef("nope") && !f.ResolveRef(m.prefix + ":"), "xsd:find-absent", ctx);
  for (auto& i : m.ty) { x::XsdTypePtr t = f.FindType(i.first); r.check(t != NULL, "xsd:type", ctx + i.first); const Ty& w = i.second; r.eq(w.complex, t->is_complex(), "xsd:type-kind", ctx); r.eq(w.name, t->get_name(), "xsd:type-name", ctx); r.eq(w.base, t->get_base(), "xsd:type-base", ctx + i.first); r.check((x::XsdComplexType::AsComplexType(t) != NULL) == w.complex && (x::XsdSimpleType::AsSimpleType(t) != NULL) == !w.complex, "xsd:type-cast", ctx);
    if (!w.complex) { x::XsdSimpleTypePtr s = x::XsdSimpleType::AsSimpleType(t); SV en; for (size_t k = 0; k < s->get_enumeration_size(); ++k) en.push_back(s->get_enumeration_at(k)); r.eq(join(w.en), join(en), "xsd:enumeration", ctx); r.eq(w.base, s->get_restriction_base(), "xsd:restriction", ctx); r.eq(w.base == "string" && !w.en.empty(), s->IsEnumeration(), "xsd:is-enumeration", ctx); continue; }
    x::XsdComplexTypePtr c = x::XsdComplexType::AsComplexType(t); SV q, g; x::XsdElementVector kids; for (auto& e : w.seq) q.push_back(show(e)); for (size_t k = 0; k < c->get_sequence_size(); ++k) g.push_back(show(c->get_sequence_at(k))); r.eq(join(q), join(g), "xsd:sequence", ctx + i.first); r.eq(!w.base.empty(), c->has_extension_base(), "xsd:has-base", ctx);
    q.clear(); for (auto& e : w.seq) { if (!e.isref) { q.push_back(show(e)); continue; } string n; if (local(m, e.name, &n) && m.el.count(n)) q.push_back(show(m.el.at(n))); } f.FindChildElements(c, &kids); r.eq(join(q), show(kids), "xsd:children", ctx + i.first);
    const Ty* b = baseOf(m, w); x::XsdComplexTypePtr gb; if (m.schema) gb = f.GetBaseType(c); r.eq(b && m.schema ? b->name : "", gb ? gb->get_name() : "", "xsd:base", ctx + i.first);
    // hierarchy: up to the first type without a base; a missing or repeated type means incomplete
    SV hier; bool ok = m.schema; std::set<const Ty*> seen; const Ty* cur = &w; seen.insert(cur); while (ok && !cur->base.empty()) { const Ty* n = baseOf(m, *cur); if (!n || !seen.insert(n).second) { ok = false; break; } hier.push_back(n->name); cur = n; } vector<x::XsdComplexTypePtr> th; bool got = f.GetTypeHierarchy(c, &th); r.eq(ok, got, "xsd:hierarchy", ctx + i.first); r.check(f.GetTypeHierarchy(c, NULL) == got, "xsd:hierarchy-null", ctx); if (ok) { SV h; for (auto& k : th) h.push_back(k->get_name()); r.eq(join(hier), join(h), "xsd:hierarchy", ctx + i.first); }
    for (auto& j : m.ty) if (j.second.complex) { bool d = m.schema && (j.first == i.first || std::count(hier.begin(), hier.end(), j.first)); r.eq(d, f.SearchTypeHierarchy(c, x::XsdComplexType::AsComplexType(f.FindType(j.first))), "xsd:derives", ctx + i.first + " from " + j.first); }
  }
  SV abs, cx, si; for (auto& i : m.el) { const El& w = i.second; x::XsdElementPtr e = f.FindElement(i.first); r.check(e != NULL, "xsd:element", ctx + i.first); r.eq(show(w), show(e), "xsd:element", ctx); r.eq(prim(w.type), e->is_primitive(), "xsd:primitive", ctx + w.type); x::XsdTypePtr t = f.FindElementType(e); const Ty* wt = typeOf(m, w.type); r.eq(prim(w.type) ? w.type : wt ? wt->name : "-", t ? t->get_name() : "-", "xsd:element-type", ctx + i.first); if (t && prim(w.type)) r.check(!t->is_complex() && t->get_base() == "xsd:primitive", "xsd:primitive-type", ctx);
    if (w.abstract) abs.push_back(show(w)); else if (wt && wt->complex) cx.push_back(show(w)); else if (prim(w.type) || wt) si.push_back(show(w)); x::XsdElementVector kids; f.GetChildElements(i.first, &kids); SV q; if (wt && wt->complex) for (auto& k : wt->seq) { string n; if (!k.isref) q.push_back(show(k)); else if (local(m, k.name, &n) && m.el.count(n)) q.push_back(show(m.el.at(n))); } r.eq(join(q), show(kids), "xsd:element-children", ctx + i.first); if (m.schema && !i.first.empty()) r.check(f.ResolveRef(m.prefix + ":" + i.first) == e && !f.ResolveRef("zz:" + i.first) && !f.ResolveRef(i.first), "xsd:resolve", ctx); }
  x::XsdElementVector a, b, c; f.GetAbstractElements(&a); f.GetComplexElements(&b); f.GetSimpleElements(&c); r.eq(join(abs, true), show(a, true), "xsd:abstract", ctx); r.eq(join(cx, true), show(b, true), "xsd:complex", ctx); r.eq(join(si, true), show(c, true), "xsd:simple", ctx);
  x::XsdElementVector ids; size_t bc = 77, bs = 77; f.GenerateElementIdVector(&ids, &bc, &bs); r.check(bc == abs.size() && bs == abs.size() + cx.size() && ids.size() == bs + si.size(), "xsd:id-ranges", ctx); r.eq(show(a) + show(b) + show(c), show(ids), "xsd:id-vector", ctx); f.GenerateElementIdVector(NULL, NULL, NULL);
  for (auto& i : m.ty) { x::XsdElementVector d; f.GetElementsOfTypeByName(i.first, &d); SV q; if (i.second.complex && m.schema) for (auto& e : m.el) { const Ty* t = typeOf(m, e.second.type); if (!t || !t->complex) continue; std::set<const Ty*> seen; bool y = false; for (const Ty* k = t; k && seen.insert(k).second; k = baseOf(m, *k)) y = y || k->name == i.first; if (y) q.push_back(show(e.second)); } r.eq(join(q, true), show(d, true), "xsd:of-type", ctx + i.first); }
  x::XsdElementVector none; f.GetElementsOfTypeByName("nope", &none); f.GetChildElements("nope", &none); r.check(none.empty(), "xsd:none", ctx); f.GetElementsOfTypeByName("nope", NULL);
}
static Node schema() { Node s("schema"); s.a("xmlns", "http://www.w3.org/2001/XMLSchema").a("xmlns:t", "urn:t").a("xmlns:o", "urn:o").a("targetNamespace", "urn:t"); return s; }
static void run(Run& r, const Node& root) { string d = xn::write(root), err; r.say(d); r.step(); r.nontrivial(); std::unique_ptr<x::XsdFile> f(x::XsdFile::CreateFromParse(d, r.pos_ & 1 ? &err : NULL)); r.check(f != NULL, "xsd:refused", d); judge(r, read(root), *f, d + "  "); r.state(d); }

// Every declaration of three types and two elements, in either order.
static Node tdecl(Run& r, int i) {
  static const char* N[] = {"A", "B", "C"}; int k = r.pick(thorough ? 9 : 8); Node n("complexType"); n.a("name", N[i]);
  auto ext = [&](const string& b) { Node c("complexContent"), e("extension"); e.a("base", b); Node q("sequence"), el("element"); el.a("name", string("in") + N[i]).a("type", "double"); q.add(el); e.add(q); c.add(e); n.add(c); };
  switch (k) { case 0: { Node q("sequence"), e("element"); e.a("ref", "t:E"); q.add(e); e = Node("element"); e.a("ref", "t:F"); q.add(e); n.add(q); break; } case 1: case 2: case 3: ext(string("t:") + N[k - 1]); break; case 4: ext("t:Missing"); break; case 5: ext("string"); break; case 6: { n.name = "simpleType"; Node s("restriction"), e("enumeration"); s.a("base", "string"); e.a("value", "x"); s.add(e); n.add(s); break; } case 7: n.name = ""; break; default: ext("o:A"); } return n; }
static Node edecl(Run& r, const char* name) { Node n("element"); n.a("name", name); static const char* T[] = {"", "t:A", "t:B", "t:C", "string", "o:A", "A", "t:Missing"}; int k = r.pick(thorough ? 8 : 6); if (*T[k]) n.a("type", T[k]); if (r.flip()) n.a("abstract", "true"); return n; }
static void decls(Run& r) { vector<Node> d; for (int i = 0; i < 3; ++i) { Node n = tdecl(r, i); if (!n.name.empty()) d.push_back(n); } d.push_back(edecl(r, "E")); d.push_back(edecl(r, "F")); int o = r.pick(2); Node s = schema(); if (o) std::reverse(d.begin(), d.end()); s.kid = d; run(r, s); }

// Every content model of a type up to the bound: groups, references, local
// elements and anonymous types nested in them.
static void model(Run& r, Node* at, int* budget, int depth, bool inType) {
  while (*budget > 0) { int k = r.pick(depth ? 8 : 2); if (k == 0) return; --*budget; static const char* G[] = {"sequence", "choice", "annotation"};
    if (k <= 1) { if (depth == 0) { Node g("sequence"); model(r, &g, budget, depth + 1, inType); at->add(g); continue; } Node e("element"); e.a("name", "l" + num(*budget)).a("type", "int"); at->add(e); }
    else if (k == 2) { Node e("element"); e.a("ref", *budget % 2 ? "t:E" : "o:E"); at->add(e); }
    else if (k == 3) { Node g(G[*budget % 3]); if (depth < 3) model(r, &g, budget, depth + 1, inType); at->add(g); }
    else if (k == 4) { Node e("element"), t("simpleType"), q("restriction"), v("enumeration"); e.a("name", "s" + num(*budget)); q.a("base", "string"); v.a("value", "v"); q.add(v); t.add(q); e.add(t); at->add(e); }
    else if (k == 5) { Node e("element"), t("complexType"), g("sequence"); e.a("name", "c" + num(*budget)); if (depth < 3) model(r, &g, budget, depth + 1, true); t.add(g); e.add(t); at->add(e); }
    else if (k == 6) { Node e("element"), t("complexType"), c("complexContent"), x("extension"); e.a("name", "x" + num(*budget)); x.a("base", "t:E"); c.add(x); t.add(c); e.add(t); at->add(e); }
    else { Node e("attribute"), t("simpleType"), q("restriction"); e.a("name", "a"); q.a("base", "int"); t.add(q); e.add(t); at->add(e); } } }
static void models(Run& r) { int where = r.pick(4), budget = thorough ? 6 : 5; Node s = schema(), e("element"); e.a("name", "E").a("type", "t:T"); Node t("complexType"); t.a("name", "T"); bool anon = false;
  switch (where) { case 0: model(r, &t, &budget, 0, true); s.add(t); s.add(e); break; case 1: { Node c("complexContent"), x("extension"); x.a("base", "t:B"); model(r, &x, &budget, 0, true); c.add(x); t.add(c); s.add(e); s.add(t); break; } case 2: { Node a("element"), c("complexType"); a.a("name", "An"); model(r, &c, &budget, 0, true); a.add(c); s.add(a); s.add(e); s.add(t); anon = true; break; } default: { Node g("group"); g.a("name", "G"); model(r, &g, &budget, 0, false); s.add(g); s.add(t); s.add(e); } } (void)anon; run(r, s); }

// Attributes of elements and facets of simple types.
static void attrs(Run& r) { Node s = schema(), t("simpleType"); if (r.flip()) { Node e("element"); static const char* V[] = {"", "true", "false", "1", "0"}; e.a("name", "E"); const char* v = V[r.pick(5)]; if (*v) e.a("abstract", v); if (r.flip()) e.a("default", r.flip() ? "d 1" : ""); if (r.flip()) e.a("substitutionGroup", "t:G"); if (r.flip()) e.a("minOccurs", "0"); if (r.flip()) e.a("ref", "t:X"); static const char* T[] = {"", "string", "int", "t:S", "QName", "xsd:string", "String"}; const char* ty = T[r.pick(7)]; if (*ty) e.a("type", ty); if (r.flip()) { Node c("complexType"), q("sequence"); c.a("name", "H"); q.add(e); c.add(q); s.add(c); } else s.add(e); t.a("name", "S"); s.add(t); run(r, s); return; }
  t.a("name", "S"); Node q("restriction"); static const char* B[] = {"", "string", "t:S2", "int", "double"}; const char* b = B[r.pick(5)]; if (*b) q.a("base", b); int n = r.pick(4); static const char* V[] = {"a", "b", "a", "", "z z", "0"}; int st = r.pick(3); for (int i = 0; i < n; ++i) { Node e("enumeration"); if (!(i == 1 && st == 2)) e.a("value", V[(i + st) % 6]); q.add(e); } if (r.flip()) { Node m("minInclusive"); m.a("value", "3"); q.add(m); } bool list = r.flip(); if (list) { Node u("union"), in("simpleType"), rq("restriction"), en("enumeration"); rq.a("base", "int"); en.a("value", "inner"); rq.add(en); in.add(rq); u.add(in); if (r.flip()) t.add(q), t.add(u); else t.add(u), t.add(q); } else t.add(q); s.add(t); Node e("element"); e.a("name", "E").a("type", "t:S"); s.add(e); run(r, s); }

// The schema element itself.
static void heads(Run& r) { Node s("schema"); static const char* T[] = {"", "urn:t", "urn:z", "http://www.w3.org/2001/XMLSchema"}; const char* t = T[r.pick(4)]; bool have = r.flip(); if (have || *t) s.a("targetNamespace", t); if (r.flip()) s.a("xmlns", "http://www.w3.org/2001/XMLSchema"); if (r.flip()) s.a("xmlns:t", "urn:t"); if (r.flip()) s.a("xmlns:tt", r.flip() ? "urn:z" : "urn:y"); Node c("complexType"), b("complexType"), cc("complexContent"), x("extension"); c.a("name", "A"); x.a("base", r.flip() ? "t:B" : "tt:B"); cc.add(x); c.add(cc); b.a("name", "B"); s.add(c); s.add(b); Node e("element"); e.a("name", "E").a("type", r.flip() ? "t:A" : "tt:A"); s.add(e); run(r, s); }

// Any nesting of the vocabulary compiles or is refused, and can be queried,
// without going wrong; where it is a proper schema it is read correctly.
static bool proper(const Node& n, int depth) { for (auto& k : n.kid) { if (k.name == "schema") return false; if (isType(k) && depth > 0 && has(k, "name")) return false; if (isType(k) && depth == 0 && !has(k, "name")) return false; if (n.name == "element" && k.name == "element") return false; if (depth == 0 && k.name == "element" && !has(k, "name")) return false; if (!proper(k, depth + 1)) return false; } return true; }
static void trees(Run& r) {
  static const char* V[] = {"element", "complexType", "simpleType", "extension", "sequence", "enumeration", "schema", "restriction"}; int n = 1 + r.pick(thorough ? 4 : 3); vector<Node> st; Node root = r.flip() ? schema() : Node(V[r.pick(8)]); st.push_back(root);
  for (int i = 0; i < n; ++i) { Node k(V[r.pick(thorough ? 8 : 7)]); if (k.name == "element") switch (r.pick(3)) { case 0: k.a("name", "E").a("type", "t:A"); break; case 1: k.a("ref", "t:E"); break; default: ; } else if (isType(k)) { if (r.flip()) k.a("name", "A"); } else if (k.name == "extension" || k.name == "restriction") { if (r.flip()) k.a("base", "t:A"); } else if (k.name == "enumeration") k.a("value", "v"); int up = r.pick((int)st.size()); while ((int)st.size() > up + 1) { Node d = st.back(); st.pop_back(); st.back().add(d); } st.push_back(k); }
  while (st.size() > 1) { Node d = st.back(); st.pop_back(); st.back().add(d); } root = st[0]; string d = xn::write(root); r.say(d); r.step(); r.nontrivial(); std::unique_ptr<x::XsdFile> f(x::XsdFile::CreateFromParse(d, NULL)); r.check(f != NULL, "xsd:refused", d); if (root.name == "schema" && proper(root, 0)) judge(r, read(root), *f, d + "  "); else { x::XsdElementVector v, w; x::XsdTypeVector t; f->GetAllElements(&v); f->GetAllTypes(&t); f->GetAbstractElements(&w); f->GetComplexElements(&w); f->GetSimpleElements(&w); for (auto& e : v) { r.check(e != NULL, "xsd:null-element", d); f->FindElementType(e); x::XsdElementVector c; f->GetChildElements(e->get_name(), &c); for (auto& z : c) r.check(z != NULL, "xsd:null-child", d); } for (auto& y : t) { r.check(y != NULL, "xsd:null-type", d); f->GetElementsOfTypeByName(y->get_name(), &w); if (x::XsdComplexTypePtr cx = x::XsdComplexType::AsComplexType(y)) { f->GetTypeHierarchy(cx, NULL); f->GetBaseType(cx); f->SearchTypeHierarchy(cx, NULL); } } f->get_target_namespace(); f->get_target_namespace_prefix(); } }

// Text that is not XML is refused.
static void broken(Run& r) { Node s = schema(), e("element"), t("complexType"), q("sequence"); e.a("name", "E").a("type", "t:T"); t.a("name", "T"); q.add(e); t.add(q); s.add(e); s.add(t); string d = xn::write(s); size_t p = r.pick(d.size()); switch (r.pick(4)) { case 0: d.erase(p); break; case 1: d[p] = '<'; break; case 2: d.insert(p, "&u;"); break; default: d.erase(p, 1); } Node n; bool ok = xn::read(d, &n); string err; r.step(); r.nontrivial(); std::unique_ptr<x::XsdFile> f(x::XsdFile::CreateFromParse(d, &err)); r.check((f != NULL) == ok, "xsd:malformed", d); if (!ok) r.check(!err.empty(), "xsd:no-message", d); else if (n.name == "schema" && proper(n, 0)) judge(r, read(n), *f, d + "  "); }

// Prefixed names.
static void names(Run& r) { static const char* P[] = {"k", "kml", "k2", "a"}; string p = P[r.pick(4)], out = "before"; std::unique_ptr<x::XsdSchema> s(x::CreateXsdSchema(p, "urn:n")); r.check(s != NULL, "xsd:schema", p); int n = r.pick(thorough ? 6 : 5); string q; static const char* A[] = {"k", ":", "kml", "2", "a"}; for (int i = 0; i < n; ++i) q += A[r.pick(5)]; bool want = q.size() > p.size() + 1 && q.compare(0, p.size() + 1, p + ":") == 0; r.step(); r.nontrivial(); r.eq(want, s->SplitNsName(q, &out), "xsd:split", p + " " + q); r.eq(want ? q.substr(p.size() + 1) : "before", out, "xsd:split", q); r.eq(want, s->SplitNsName(q, NULL), "xsd:split", q); }
static void prims(Run& r) { int i = r.pick(23); r.nontrivial(); r.step(); string n = x::XsdPrimitiveType::GetTypeName((x::XsdPrimitiveType::TypeId)i); r.eq(i ? PRIM()[i - 1] : "", n, "xsd:prim-name", num(i)); r.eq(i, (int)x::XsdPrimitiveType::GetTypeId(n), "xsd:prim-id", n); x::XsdTypePtr p = x::XsdPrimitiveType::Create(n); r.check((p != NULL) == (i != 0), "xsd:prim-create", n); if (p) r.check(p->get_name() == n && !p->is_complex(), "xsd:prim-type", n); for (auto s : {"STRING", "strin", "string ", "xsd:string", "Type"}) r.check(x::XsdPrimitiveType::GetTypeId(s) == 0, "xsd:prim-other", s); }
// Alias tables.
static void aliases(Run& r) { static const char* L[] = {"alias A X", "alias B Y", "alias A Z", "alias A", "alias", "other A X", "", "alias A X extra", "alias C W", "# alias B Q"}; int n = r.pick(thorough ? 6 : 5); string t; map<string, string> want; for (int i = 0; i < n; ++i) { int k = r.pick(10); t += L[k]; if (i + 1 < n || r.flip()) t += "\n"; if (k == 0) want["A"] = "X"; if (k == 1) want["B"] = "Y"; if (k == 2) want["A"] = "Z"; if (k == 8) want["C"] = "W"; } x::XsdFile f; x::XstParser p(&f); r.step(); r.nontrivial(); p.ParseXst(t); for (auto k : {"A", "B", "C", "alias", ""}) r.eq(want.count(k) ? want[k] : "", f.get_alias(k), "xsd:alias", t + " " + k); }
// Long schemas: chains of derivation, long sequences, many declarations.
static void scale(Run& r) { static const int N[] = {5, 9, 17, 33, 65}; int n = N[r.pick(thorough ? 5 : 4)], shape = r.pick(5); bool rev = r.flip(); Node s = schema(); vector<Node> ds; auto T = [&](int i, int base) { Node t("complexType"), q("sequence"), e("element"); t.a("name", "T" + num(i)); e.a("name", "m" + num(i)); e.a("type", "int"); q.add(e); if (base < 0) t.add(q); else { Node c("complexContent"), x("extension"); x.a("base", "t:T" + num(base)); x.add(q); c.add(x); t.add(c); } return t; };
  if (shape < 3) for (int i = 0; i < n; ++i) { ds.push_back(T(i, shape == 0 ? i - 1 : shape == 1 ? (i - 1) / 2 : i == 0 ? n - 1 : i - 1)); if (shape == 1 && i == 0) ds[0] = T(0, -1); if (i % 3 == 0) { Node e("element"); e.a("name", "E" + num(i)).a("type", "t:T" + num(i)); if (i % 2) e.a("abstract", "true"); ds.push_back(e); } }
  else if (shape == 3) { Node t("complexType"), q("sequence"); t.a("name", "Big"); for (int i = 0; i < n; ++i) { Node e("element"); if (i % 2) e.a("ref", "t:E" + num(i)); else e.a("name", "l" + num(i)).a("type", "string"); q.add(e); if (i % 3 == 1) { Node d("element"); d.a("name", "E" + num(i)).a("type", i % 2 ? "t:Big" : "double"); ds.push_back(d); } } t.add(q); ds.push_back(t); }
  else { Node t("simpleType"), q("restriction"); t.a("name", "En"); q.a("base", "string"); for (int i = 0; i < n; ++i) { Node v("enumeration"); v.a("value", "v" + num(i)); q.add(v); Node d("element"); d.a("name", "E" + num(i)).a("type", i % 2 ? "t:En" : "string").a("default", "v" + num(i)); ds.push_back(d); } t.add(q); ds.push_back(t); }
  if (rev) std::reverse(ds.begin(), ds.end()); for (auto& d : ds) s.add(d); run(r, s); }
void mc_setup() {
  rule("a case is one schema (or name, alias table, damaged text); every query of the compiled file is compared with an independent reading of the schema tree; every case is non-trivial; schemas of 5 to 33 chained, branching and circular types, long sequences and enumerations (65 thorough)");
  assume("schema documents use the XML Schema namespace as default namespace, the form the compiler reads"); assume("one prefix per namespace; types are named only at the top level; references outside the file are not resolved");
  add("decls", decls); add("models", models); add("attrs", attrs); add("heads", heads); add("trees", trees); add("broken", broken); add("names", names); add("prims", prims, BOTH, 1); add("aliases", aliases);
  add("scale", scale, BOTH, 1);
}
