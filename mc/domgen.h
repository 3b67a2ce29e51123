// Reference document model over the schema table: build it through the API,
// write it as XML, and compare it with what the library parsed or serialized.
#ifndef MC_DOMGEN_H_
#define MC_DOMGEN_H_
#include "schema.h"
#include "xmlnode.h"
#include <math.h>
namespace dg {
using namespace sch; using xn::Node;

struct M {
  const Class* c = NULL;
  std::map<size_t, string> sc;               // present scalar fields
  std::map<size_t, vector<string>> sl;       // simple lists
  std::map<size_t, vector<M>> ch;            // complex children / lists
  vector<Node> extra;                        // unknown elements
  std::map<string, string> xattr;            // unknown attributes
  M() {} M(const Class& k) : c(&k) {} M(const string& k) : c(&key(k)) {}
  size_t fi(const string& api) const { for (size_t i = 0; i < c->f.size(); ++i) if (c->f[i].api == api) return i; fprintf(stderr, "no field %s.%s\n", c->cls.c_str(), api.c_str()); abort(); }
  M& set(const string& api, const string& v) { sc[fi(api)] = v; return *this; }
  M& app(const string& api, const string& v) { sl[fi(api)].push_back(v); return *this; }
  M& add(const string& api, const M& m) { ch[fi(api)].push_back(m); return *this; }
};
inline double numd(const string& s) { return strtod(s.c_str(), NULL); }
inline bool near(double a, double b) { return a == b || fabs(a - b) <= 1e-14 * std::max(fabs(a), fabs(b)); }
inline string text_of(const Field& f, const string& v) {
  if (f.kind == ENUM || f.kind == AENUM || f.kind == ELIST) return f.enums[ti(v)];
  if (f.kind == DBL || f.kind == ADBL) { char b[64]; snprintf(b, 64, "%.15g", numd(v)); return b; }
  return v;
}
inline string vec_text(const string& v, char sep) { string o = v; for (auto& c : o) if (c == ' ') c = sep; return o; }
// Is XML text t an acceptable rendering of canonical value v?
inline bool same_val(const Field& f, const string& v, const string& t) {
  switch (f.kind) {
    case DBL: case ADBL: case INT: case AINT: { char* e; double d = strtod(t.c_str(), &e); return !t.empty() && *e == 0 && near(d, numd(v)); }
    case BOOL: return t == v || (v == "1" && t == "true") || (v == "0" && t == "false");
    case COLOR: return strcasecmp(t.c_str(), v.c_str()) == 0;
    default: return t == text_of(f, v);
  }
}
// Order of fields in the written document: identity unless perm given.
inline void kids_of(const M& m, size_t i, vector<Node>* out);
inline Node to_xml(const M& m, bool reverse = false) {
  Node n(m.c->tag);
  for (auto& a : m.xattr) n.attr[a.first] = a.second;
  vector<vector<Node>> groups;
  for (size_t i = 0; i < m.c->f.size(); ++i) {
    const Field& f = m.c->f[i]; vector<Node> g;
    if (f.scalar()) {
      auto s = m.sc.find(i); if (s == m.sc.end()) continue;
      if (f.attr()) n.attr[f.xml] = text_of(f, s->second);
      else if (f.kind == TEXT) n.text = s->second;
      else g.push_back(Node(f.xml, text_of(f, s->second)));
    } else if (f.complex()) {
      auto s = m.ch.find(i); if (s == m.ch.end()) continue;
      for (auto& k : s->second) g.push_back(to_xml(k, reverse));
    } else {
      auto s = m.sl.find(i); if (s == m.sl.end()) continue;
      if (f.kind == ELIST) { string t; for (auto& v : s->second) t += (t.empty() ? "" : " ") + text_of(f, v); g.push_back(Node(f.xml, t)); }
      else for (auto& v : s->second)
        if (f.xml.empty()) n.text += vec_text(v, ',') + "\n";
        else g.push_back(Node(f.xml, f.kind == VLIST ? v : text_of(f, v)));
    }
    groups.push_back(g);
  }
  if (reverse) std::reverse(groups.begin(), groups.end());
  for (auto& g : groups) for (auto& k : g) n.kid.push_back(k);
  for (auto& x : m.extra) n.kid.push_back(x);
  return n;
}
inline ElementPtr to_dom(const M& m) {
  ElementPtr e = m.c->make();
  for (auto& s : m.sc) m.c->f[s.first].set(e.get(), s.second);
  for (auto& s : m.sl) for (auto& v : s.second) m.c->f[s.first].set(e.get(), v);
  for (auto& s : m.ch) for (auto& k : s.second) m.c->f[s.first].setc(e.get(), to_dom(k));
  return e;
}
inline bool eq_node(const Node& a, const Node& b) {
  if (a.name != b.name || a.attr != b.attr || a.kid.size() != b.kid.size()) return false;
  if (a.text != b.text && !(xn::blank(a.text) && xn::blank(b.text) && !a.kid.empty())) return false;
  for (size_t i = 0; i < a.kid.size(); ++i) if (!eq_node(a.kid[i], b.kid[i])) return false;
  return true;
}
// Set when an element with empty text came back holding only white space.
inline bool& ws_in_empty() { static bool b; return b; }
inline string tag_of(const string& k) { return key(k).tag; }
// Does the XML element n carry exactly the content of m?
inline bool match(const M& m, const Node& n, string* why) {
  auto bad = [&](const string& s) { *why = m.c->tag + ": " + s; return false; };
  if (n.name != m.c->tag) return bad("element is <" + n.name + ">");
  std::map<string,string> at = n.attr; std::map<size_t, vector<const Node*>> got; vector<const Node*> unk;
  for (auto& k : n.kid) {
    bool f1 = false;
    for (size_t i = 0; i < m.c->f.size() && !f1; ++i) {
      const Field& f = m.c->f[i];
      if (f.attr() || f.kind == TEXT) continue;
      if (f.complex()) { for (auto& a : f.accept) if (tag_of(a) == k.name) { got[i].push_back(&k); f1 = true; break; } }
      else if (!f.xml.empty() && f.xml == k.name) { got[i].push_back(&k); f1 = true; }
    }
    if (!f1) unk.push_back(&k);
  }
  string text = n.text; bool has_text = false;
  for (size_t i = 0; i < m.c->f.size(); ++i) {
    const Field& f = m.c->f[i];
    if (f.scalar()) {
      auto s = m.sc.find(i); bool want = s != m.sc.end();
      if (f.attr()) {
        auto a = at.find(f.xml);
        if (want != (a != at.end())) return bad("attribute " + f.xml + (want ? " missing" : " invented"));
        if (want && !same_val(f, s->second, a->second)) return bad("attribute " + f.xml + " is [" + a->second + "] want [" + s->second + "]");
        if (want) at.erase(a);
      } else if (f.kind == TEXT) {
        has_text = true;
        string w = want ? s->second : "";
        if (w.empty() && !text.empty() && xn::blank(text)) ws_in_empty() = true;
        else if (text != w) return bad("text is [" + mc::esc(text) + "] want [" + mc::esc(w) + "]");
      } else {
        size_t k = got[i].size();
        if (k != (want ? 1 : 0)) return bad("<" + f.xml + "> occurs " + mc::str(k) + " times, want " + (want ? "1" : "0"));
        if (want && (!same_val(f, s->second, got[i][0]->text) || !got[i][0]->kid.empty())) return bad("<" + f.xml + "> is [" + mc::esc(got[i][0]->text) + "] want [" + mc::esc(text_of(f, s->second)) + "]");
      }
    } else if (f.complex()) {
      auto s = m.ch.find(i); size_t w = s == m.ch.end() ? 0 : s->second.size();
      if (got[i].size() != w) return bad(f.api + " has " + mc::str(got[i].size()) + " children, want " + mc::str(w));
      for (size_t k = 0; k < w; ++k) if (!match(s->second[k], *got[i][k], why)) { *why = m.c->tag + "/" + *why; return false; }
    } else {
      auto s = m.sl.find(i); size_t w = s == m.sl.end() ? 0 : s->second.size();
      if (f.xml.empty()) {
        has_text = true; vector<string> tok; string t;
        for (char ch : text + " ") if (isspace((unsigned char)ch)) { if (!t.empty()) tok.push_back(t); t.clear(); } else t += ch;
        if (tok.size() != w) return bad("has " + mc::str(tok.size()) + " tuples, want " + mc::str(w));
        for (size_t k = 0; k < w; ++k) { kmlbase::Vec3 v = tv(s->second[k]); double a[3] = {0,0,0}; int c = sscanf(tok[k].c_str(), "%lf,%lf,%lf", a, a+1, a+2);
          if (c < 2 || !near(a[0], v.get_longitude()) || !near(a[1], v.get_latitude()) || !near(a[2], v.get_altitude())) return bad("tuple " + tok[k] + " want " + s->second[k]); }
      } else if (f.kind == ELIST) {
        if (got[i].size() != (w ? 1 : 0)) return bad("<" + f.xml + "> occurs " + mc::str(got[i].size()) + " times");
        string t; for (size_t k = 0; k < w; ++k) t += (k ? " " : "") + text_of(f, s->second[k]);
        if (w && got[i][0]->text != t) return bad("<" + f.xml + "> is [" + got[i][0]->text + "] want [" + t + "]");
      } else {
        if (got[i].size() != w) return bad("<" + f.xml + "> occurs " + mc::str(got[i].size()) + " times, want " + mc::str(w));
        for (size_t k = 0; k < w; ++k) {
          if (f.kind == VLIST) { kmlbase::Vec3 v = tv(s->second[k]), g = tv(got[i][k]->text); if (!near(v.get_longitude(), g.get_longitude()) || !near(v.get_latitude(), g.get_latitude()) || !near(v.get_altitude(), g.get_altitude())) return bad("<" + f.xml + "> is [" + got[i][k]->text + "] want [" + s->second[k] + "]"); }
          else if (got[i][k]->text != text_of(f, s->second[k])) return bad("<" + f.xml + "> is [" + mc::esc(got[i][k]->text) + "] want [" + mc::esc(text_of(f, s->second[k])) + "]");
        }
      }
    }
  }
  for (auto& a : m.xattr) { auto i = at.find(a.first); if (i == at.end() || i->second != a.second) return bad("unknown attribute " + a.first + " lost or changed"); at.erase(i); }
  if (!at.empty()) return bad("attribute " + at.begin()->first + " invented");
  if (unk.size() != m.extra.size()) return bad(mc::str(unk.size()) + " unknown children, want " + mc::str(m.extra.size()) + (unk.empty() ? "" : " first <" + unk[0]->name + ">"));
  for (size_t i = 0; i < unk.size(); ++i) if (!eq_node(m.extra[i], *unk[i])) return bad("unknown child changed to " + xn::write(*unk[i]) + " want " + xn::write(m.extra[i]));
  if (!has_text && !xn::blank(text)) return bad("stray text [" + mc::esc(text) + "]");
  return true;
}
// Does element e report, through its accessors, exactly the content of m?
inline bool equals(const M& m, const ElementPtr& e, string* why, bool parsed) {
  auto bad = [&](const string& s) { *why = m.c->cls + ": " + s; return false; };
  if (!e) return bad("element missing");
  if ((int)e->Type() != m.c->type) return bad("has type " + mc::str(e->Type()));
  for (size_t i = 0; i < m.c->f.size(); ++i) {
    const Field& f = m.c->f[i];
    if (f.scalar()) {
      auto s = m.sc.find(i); bool want = s != m.sc.end();
      if (f.kind == TEXT && parsed) { string g = f.get(e.get()), w = want ? s->second : ""; if (w.empty() && xn::blank(g)) { if (!g.empty()) ws_in_empty() = true; } else if (g != w) return bad("text accessor"); continue; }
      if (f.has(e.get()) != want) return bad("has_" + f.api + " is " + (want ? "false" : "true"));
      string g = f.get(e.get()), w = want ? s->second : f.def;
      bool same = f.kind == DBL || f.kind == ADBL ? near(numd(g), numd(w)) : g == w;
      if (!same) return bad("get_" + f.api + " is [" + mc::esc(g) + "] want [" + mc::esc(w) + "]");
    } else if (f.kind == CHILD) {
      auto s = m.ch.find(i); bool want = s != m.ch.end() && !s->second.empty();
      if (f.has(e.get()) != want) return bad("has_" + f.api + " is " + (want ? "false" : "true"));
      ElementPtr g = f.getc(e.get());
      if (want != (g.get() != NULL)) return bad("get_" + f.api + " presence");
      if (want) { if (g->GetParent().get() != e.get()) return bad(f.api + " has the wrong parent"); if (!equals(s->second.back(), g, why, parsed)) { *why = m.c->cls + "." + *why; return false; } }
    } else if (f.kind == LIST) {
      auto s = m.ch.find(i); size_t w = s == m.ch.end() ? 0 : s->second.size();
      if (f.size(e.get()) != w) return bad(f.api + " array size " + mc::str(f.size(e.get())) + " want " + mc::str(w));
      for (size_t k = 0; k < w; ++k) { ElementPtr g = f.at(e.get(), k); if (!g || g->GetParent().get() != e.get()) return bad(f.api + " item parent"); if (!equals(s->second[k], g, why, parsed)) { *why = m.c->cls + "." + *why; return false; } }
    } else {
      auto s = m.sl.find(i); size_t w = s == m.sl.end() ? 0 : s->second.size();
      if (f.size(e.get()) != w) return bad(f.api + " array size " + mc::str(f.size(e.get())) + " want " + mc::str(w));
      for (size_t k = 0; k < w; ++k) { string g = f.sat(e.get(), k), x = s->second[k];
        if (f.kind == VLIST) { kmlbase::Vec3 a = tv(g), b = tv(x); if (!near(a.get_longitude(), b.get_longitude()) || !near(a.get_latitude(), b.get_latitude()) || !near(a.get_altitude(), b.get_altitude())) return bad(f.api + " item " + g + " want " + x); }
        else if (g != x) return bad(f.api + " item " + g + " want " + x); }
    }
  }
  return true;
}
// A small, distinguishable instance of a class: one identifying field set.
inline M leaf(const string& k, const string& tag = "v") {
  M m(k);
  for (const char* a : {"id", "name", "href", "text", "maxlines"}) if (m.c->by_api(a)) { size_t i = m.fi(a); m.sc[i] = m.c->f[i].kind == AINT ? "5" : tag; return m; }
  for (size_t i = 0; i < m.c->f.size(); ++i) if (m.c->f[i].scalar()) { V v = values(m.c->f[i], false); m.sc[i] = m.c->f[i].kind == STR || m.c->f[i].kind == ASTR ? tag : v[0]; return m; }
  for (size_t i = 0; i < m.c->f.size(); ++i) if (m.c->f[i].list() && !m.c->f[i].complex()) { m.sl[i].push_back(values(m.c->f[i], false)[0]); return m; }
  return m;
}
// Put a representative value in field i.
inline void put(M& m, size_t i, const string& tag = "v", size_t acc = 0) {
  const Field& f = m.c->f[i];
  if (f.scalar()) m.sc[i] = (f.kind == STR || f.kind == ASTR || f.kind == TEXT) ? tag : values(f, false)[0];
  else if (f.complex()) m.ch[i].push_back(leaf(f.accept[acc % f.accept.size()], tag));
  else m.sl[i].push_back(values(f, false)[0]);
}
// IconStyleIcon is only recognised inside IconStyle.
inline M rooted(const M& m) { if (m.c->cls != "IconStyleIcon") return m; M p("IconStyle"); p.add("icon", m); return p; }
// Reference merge of src into tgt.
inline void ref_fields(const M& s, M* t) {
  for (auto& x : s.sc) t->sc[x.first] = x.second;
  for (auto& x : s.sl) { const Field& f = t->c->f[x.first]; if (f.xml.empty() || f.kind == ELIST) t->sl[x.first] = x.second; else for (auto& v : x.second) t->sl[x.first].push_back(v); }
  if (t->c->cls == "Coordinates" && s.sl.empty()) t->sl.clear();
}
inline void ref_merge(const M& s, M* t) {
  M snap = *t; std::map<const Class*, std::pair<size_t, size_t>> first;
  for (auto& x : snap.ch) for (size_t i = 0; i < x.second.size(); ++i) first.insert({x.second[i].c, {x.first, i}});
  for (auto& x : s.ch) for (auto& k : x.second) {
    auto it = first.find(k.c);
    if (it != first.end()) ref_merge(k, &t->ch[it->second.first][it->second.second]);
    else { if (t->c->f[x.first].kind == CHILD) t->ch[x.first].clear(); t->ch[x.first].push_back(k); }
  }
  ref_fields(s, t);
}
}  // namespace dg
#endif
