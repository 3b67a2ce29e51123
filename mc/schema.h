// Reference schema of KML 2.2 + gx/atom/xal as the library supports it.  This
// table is written from the KML reference, not derived from the code; every
// accessor is called through it, so schema and implementation are bound.
#ifndef MC_SCHEMA_H_
#define MC_SCHEMA_H_
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <stdlib.h>
#include <string.h>
#include "kml/dom.h"
#include "core.h"
namespace sch {
using std::string; using std::vector;
using kmldom::ElementPtr; using kmldom::Element;

enum Kind { STR, BOOL, INT, DBL, ENUM, COLOR,      // simple child elements
            ASTR, AINT, ADBL, AENUM,               // attributes
            TEXT,                                  // character data
            CHILD, LIST,                           // complex child / list of them
            SLIST, ELIST, VLIST };                 // lists of simple string / enum / vec3
struct Field {
  string api, xml; Kind kind; string def; vector<string> enums; vector<string> accept;
  std::function<void(Element*, const string&)> set;   // scalar: canonical value; lists: append
  std::function<bool(Element*)> has;
  std::function<string(Element*)> get;                // scalar: canonical value
  std::function<void(Element*)> clear;
  std::function<bool(Element*, const ElementPtr&)> setc;  // complex: set or append; true: now ours
  std::function<ElementPtr(Element*)> getc;
  std::function<size_t(Element*)> size;
  std::function<ElementPtr(Element*, size_t)> at;
  std::function<string(Element*, size_t)> sat;
  bool attr() const { return kind >= ASTR && kind <= AENUM; }
  bool scalar() const { return kind <= TEXT; }
  bool list() const { return kind >= LIST; }
  bool complex() const { return kind == CHILD || kind == LIST; }
};
struct Class {
  string cls, tag; vector<string> isa; int type; vector<Field> f;
  std::function<ElementPtr()> make;
  const Field* by_api(const string& a) const { for (auto& x : f) if (x.api == a) return &x; return NULL; }
};
inline string cs(bool b) { return b ? "1" : "0"; }
inline string cd(double d) { return mc::num(d); }
inline bool tb(const string& s) { return s == "1"; }
inline double td(const string& s) { return strtod(s.c_str(), NULL); }
inline int ti(const string& s) { return (int)strtol(s.c_str(), NULL, 10); }

typedef vector<string> V;
inline const V& en(const string& n) {
  static std::map<string, V> m = {
    {"altitudeMode", {"clampToGround", "relativeToGround", "absolute"}},
    {"gx:altitudeMode", {"clampToSeaFloor", "relativeToSeaFloor"}},
    {"colorMode", {"normal", "random"}}, {"displayMode", {"default", "hide"}},
    {"gx:flyToMode", {"bounce", "smooth"}}, {"gridOrigin", {"lowerLeft", "upperLeft"}},
    {"state", {"open", "closed", "error", "fetching0", "fetching1", "fetching2"}},
    {"listItemType", {"check", "radioFolder", "checkOffOnly", "checkHideChildren"}},
    {"gx:playMode", {"pause"}}, {"refreshMode", {"onChange", "onInterval", "onExpire"}},
    {"shape", {"rectangle", "cylinder", "sphere"}}, {"key", {"normal", "highlight"}},
    {"units", {"fraction", "pixels", "insetPixels"}},
    {"viewRefreshMode", {"never", "onRequest", "onStop", "onRegion"}}};
  return m[n];
}
inline kmlbase::Vec3 tv(const string& s) { double a = 0, b = 0, d = 0; sscanf(s.c_str(), "%lf %lf %lf", &a, &b, &d); return kmlbase::Vec3(a, b, d); }
inline string vs(const kmlbase::Vec3& v) { return cd(v.get_longitude()) + " " + cd(v.get_latitude()) + " " + cd(v.get_altitude()); }

vector<Class> build();
inline const vector<Class>& all() { static vector<Class> v = build(); return v; }
// Key: XML tag, except IconStyleIcon (tag "Icon") keyed by class name.
inline const Class& key(const string& k) {
  static std::map<string, const Class*> m;
  if (m.empty()) for (auto& c : all()) m[c.cls == "IconStyleIcon" ? c.cls : c.tag] = &c;
  auto i = m.find(k); if (i == m.end()) { fprintf(stderr, "no class %s\n", k.c_str()); abort(); }
  return *i->second;
}
inline string keyof(const Class& c) { return c.cls == "IconStyleIcon" ? c.cls : c.tag; }
inline const Class* of_type(int t) { for (auto& c : all()) if (c.type == t) return &c; return NULL; }

// Representative values (canonical form) of a scalar field.
inline vector<string> values(const Field& f, bool rich = true) {
  switch (f.kind) {
    case STR: return rich ? V{"v", "a b", "", " ", " \n v "} : V{"v"};
    case ASTR: case TEXT: return rich ? V{"v", "a b", ""} : V{"v"};
    case BOOL: return V{"1", "0"};
    case INT: case AINT: return rich ? V{"7", "0", "-3", "123456789"} : V{"7"};
    case DBL: case ADBL: return rich ? V{cd(12.5), cd(0), cd(-179.123456789012), cd(1e-7), cd(1e21)} : V{cd(12.5)};
    case ENUM: case AENUM: { V v; for (size_t i = 0; i < f.enums.size(); ++i) v.push_back(mc::str(i)); if (!rich) v = V{v.back()}; return v; }
    case COLOR: return rich ? V{"aabbccdd", "00000000", "ffffffff", "12345678", "0a0b0c0d"} : V{"aabbccdd"};
    case SLIST: return rich ? V{"v", "a b"} : V{"v"};
    case ELIST: { V v; for (size_t i = 0; i < f.enums.size(); ++i) v.push_back(mc::str(i)); return v; }
    case VLIST: return rich ? V{"1.5 2.25 3", "-179.5 -89.25 0", "0 0 -1"} : V{"1.5 2.25 3"};
    default: return V();
  }
}
}  // namespace sch
#endif
