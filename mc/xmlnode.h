// Independent XML infoset: a tiny tree, a writer and a strict expat reader
// (never libkml code).
#ifndef MC_XMLNODE_H_
#define MC_XMLNODE_H_
#include <expat.h>
#include <string>
#include <vector>
#include <map>
namespace xn {
using std::string; using std::vector;
struct Node {
  string name; std::map<string,string> attr; string text; vector<Node> kid;
  Node() {} Node(const string& n) : name(n) {}
  Node(const string& n, const string& t) : name(n), text(t) {}
  Node& add(const Node& n) { kid.push_back(n); return kid.back(); }
  Node& a(const string& k, const string& v) { attr[k] = v; return *this; }
  const Node* child(const string& n) const { for (auto& k : kid) if (k.name == n) return &k; return NULL; }
};
inline string esc(const string& s, bool attr = false) {
  string o;
  for (char c : s) switch (c) {
    case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break;
    case '"': if (attr) o += "&quot;"; else o += c; break;
    case '\n': if (attr) o += "&#10;"; else o += c; break;
    case '\t': if (attr) o += "&#9;"; else o += c; break;
    case '\r': o += "&#13;"; break;
    default: o += c;
  }
  return o;
}
inline void write(const Node& n, string* o) {
  *o += "<" + n.name;
  for (auto& a : n.attr) *o += " " + a.first + "=\"" + esc(a.second, true) + "\"";
  if (n.text.empty() && n.kid.empty()) { *o += "/>"; return; }
  *o += ">" + esc(n.text);
  for (auto& k : n.kid) write(k, o);
  *o += "</" + n.name + ">";
}
inline string write(const Node& n) { string o; write(n, &o); return o; }
struct Rd { vector<Node> st; Node root; bool done = false; };
inline void rs(void* u, const char* n, const char** a) { Rd* r = (Rd*)u; Node x(n); for (; *a; a += 2) x.attr[a[0]] = a[1]; r->st.push_back(x); }
inline void re(void* u, const char*) { Rd* r = (Rd*)u; Node x = r->st.back(); r->st.pop_back(); if (r->st.empty()) { r->root = x; r->done = true; } else r->st.back().kid.push_back(x); }
inline void rc(void* u, const char* s, int n) { Rd* r = (Rd*)u; if (!r->st.empty()) r->st.back().text.append(s, n); }
// Reads well-formed XML; with ns the reader is namespace aware, so undeclared
// prefixes are errors.
inline bool read(const string& s, Node* out, string* err = NULL, bool ns = false) {
  XML_Parser p = ns ? XML_ParserCreateNS(NULL, '|') : XML_ParserCreate(NULL);
  Rd r; XML_SetUserData(p, &r); XML_SetElementHandler(p, rs, re); XML_SetCharacterDataHandler(p, rc);
  bool ok = XML_Parse(p, s.data(), (int)s.size(), 1) == XML_STATUS_OK;
  if (!ok && err) *err = XML_ErrorString(XML_GetErrorCode(p));
  XML_ParserFree(p);
  if (ok) *out = r.root;
  return ok;
}
inline bool blank(const string& s) { return s.find_first_not_of(" \t\r\n") == string::npos; }
inline string dump(const Node& n) { return write(n); }
}  // namespace xn
#endif
