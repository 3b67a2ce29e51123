// P27: colors, numbers, booleans, enumerations and dates.
#include "core.h"
#include "schema.h"
#include "kml/base/color32.h"
#include "kml/base/string_util.h"
#include "kml/base/date_time.h"
#include "kml/base/attributes.h"
#include "kml/dom/xsd.h"
#include "kml/dom.h"
#include <float.h>
#include <math.h>
#include <memory>
#include <set>
using namespace mc; using std::string; using std::vector; using kmlbase::Color32;
static string hex8(uint32_t v) { char b[16]; snprintf(b, 16, "%08x", v); return b; }
static void judgeColor(Run& r, const Color32& c, uint32_t a, uint32_t b, uint32_t g, uint32_t d, const string& what) {
  uint32_t abgr = a << 24 | b << 16 | g << 8 | d, argb = a << 24 | d << 16 | g << 8 | b; r.check(c.get_alpha() == a && c.get_blue() == b && c.get_green() == g && c.get_red() == d, "color:components", what); r.check(c.get_color_abgr() == abgr, "color:abgr", what); r.check(c.get_color_argb() == argb, "color:argb", what); r.eq(hex8(abgr), c.to_string_abgr(), "color:text-abgr", what); r.eq(hex8(argb), c.to_string_argb(), "color:text-argb", what);
}
static void colors(Run& r) {
  static const vector<uint32_t> B = {0, 1, 0x0f, 0x10, 0x5a, 0x7f, 0x80, 0xfe, 0xff}; uint32_t a = r.of(B), b = r.of(B), g = r.of(B), d = r.of(B); string what = hex8(a << 24 | b << 16 | g << 8 | d); uint32_t abgr = a << 24 | b << 16 | g << 8 | d, argb = a << 24 | d << 16 | g << 8 | b; r.nontrivial(); r.step(); judgeColor(r, Color32(abgr), a, b, g, d, what); judgeColor(r, Color32((int32_t)abgr), a, b, g, d, what); judgeColor(r, Color32((unsigned char)a, (unsigned char)b, (unsigned char)g, (unsigned char)d), a, b, g, d, what); judgeColor(r, Color32(what), a, b, g, d, what); Color32 c; judgeColor(r, c, 255, 255, 255, 255, "default"); c.set_color_abgr((uint32_t)abgr); judgeColor(r, c, a, b, g, d, what); c = Color32(~abgr); c.set_color_argb(argb); judgeColor(r, c, a, b, g, d, what); c = Color32(~abgr); c.set_color_abgr((unsigned char)a, (unsigned char)b, (unsigned char)g, (unsigned char)d); judgeColor(r, c, a, b, g, d, what); c = (uint32_t)~abgr; c.set_alpha(a); c.set_red(d); c.set_blue(b); c.set_green(g); judgeColor(r, c, a, b, g, d, what); c = (int32_t)abgr; judgeColor(r, c, a, b, g, d, what); Color32 e(c.to_string_abgr()); r.check(e == c && !(e != c), "color:roundtrip", what);
  for (uint32_t v : {0u, 1u, 0x7fffffffu, 0x80000000u, abgr ^ 1, abgr ^ 0x80000000u, ~0u}) { Color32 x(v); r.check((c == x) == (abgr == v) && (c != x) == (abgr != v) && (c < x) == (abgr < v) && (c > x) == (abgr > v), "color:order", what); }
  string up = what; for (auto& ch : up) ch = toupper(ch); kmldom::LineStylePtr l = kmldom::AsLineStyle(kmldom::Parse("<LineStyle><color>" + up + "</color></LineStyle>", NULL)); judgeColor(r, l->get_color(), a, b, g, d, "parsed " + up); r.state(what);
}
static void colorText(Run& r) { string lead = r.of({string(""), string(" "), string("\n\t ")}), h = r.of({string(""), string("#")}), tail = r.of({string(""), string(" "), string("\n"), string("zz")}); int n = r.pick(11); static const vector<string> D = {"0123456789abcdef", "FFEEDDCCBBAA", "00000000ff", "a1B2c3D4e5F6"}; string d = r.of(D).substr(0, n); if (!tail.empty() && n < 8) r.prune(); string s = lead + h + d + tail; uint32_t want = (uint32_t)strtoul(d.substr(0, 8).c_str(), NULL, 16); r.nontrivial(); r.step(); r.eq(hex8(want), Color32(s).to_string_abgr(), "color:text", esc(s)); Color32 c(0x12345678u); c.set_color_abgr(s); r.eq(hex8(want), c.to_string_abgr(), "color:text", esc(s)); }
static bool same15(double a, double b) { char x[64], y[64]; snprintf(x, 64, "%.15g", a); snprintf(y, 64, "%.15g", b); return a == b || strcmp(x, y) == 0; }
static void judgeDouble(Run& r, double v) { string t = kmlbase::ToString(v); double g = 777; kmlbase::FromString(t, &g); char b[64]; snprintf(b, 64, "%.15g", v); r.eq(b, t, "number:written", b); r.check(same15(v, g), "number:roundtrip", t + " read " + num(g)); r.check(signbit(v) == signbit(g), "number:sign", t); kmlbase::Attributes a; a.SetValue("x", v); double q = 1; r.check(a.GetValue("x", &q) && q == g, "number:attribute", t); }
static void doubles(Run& r) { static const vector<double> M = {0, 1, 1.5, 2.2250738585072014, 1.7976931348623157, 3.141592653589793, 1.0 / 3, 9.99999999999999, 9.999999999999999, 1.23456789012345678, 4.9406564584124654}; double m = r.of(M); int e = r.pick(633) - 324; double v = strtod((num(m) + "e" + num(e)).c_str(), NULL); char buf[64]; snprintf(buf, 64, "%.17ge%d", m, e); v = strtod(buf, NULL); if (!(fabs(v) <= DBL_MAX)) r.prune(); r.nontrivial(); r.step(); judgeDouble(r, r.flip() ? -v : v); }
static void powers(Run& r) { int e = r.pick(2098) - 1074; double v = ldexp(1, e); r.nontrivial(); r.step(); for (double x : {v, -v, nextafter(v, 0), nextafter(v, INFINITY), v * 1.5}) if (fabs(x) <= DBL_MAX) judgeDouble(r, x); float f = (float)v; if (f > 0 && fabsf(f) <= FLT_MAX) { string t = kmlbase::ToString(f); r.check(fabs(strtod(t.c_str(), NULL) - f) <= fabs(f) * 1e-7, "number:float", t); } }
static void ints(Run& r) { int k = r.pick(32), d = r.pick(3) - 1; long long v = (1LL << k) + d; if (r.flip()) v = -v; if (v > INT32_MAX || v < INT32_MIN) r.prune(); r.nontrivial(); r.step(); string t = kmlbase::ToString((int)v), w; { char b[32]; snprintf(b, 32, "%lld", v); w = b; } r.eq(w, t, "number:int-written", w); int g = 777; kmlbase::FromString(t, &g); r.check(g == v, "number:int", t); g = 5; kmlbase::FromString(" \n" + t + " ", &g); r.check(g == v, "number:int-spaces", t); kmlbase::Attributes a; a.SetValue("x", (int)v); r.check(a.GetValue("x", &g) && g == v, "number:int-attribute", t); kmldom::LookAtPtr l; kmldom::GroundOverlayPtr o = kmldom::AsGroundOverlay(kmldom::Parse("<GroundOverlay><drawOrder>" + t + "</drawOrder></GroundOverlay>", NULL)); r.check(o->get_draworder() == v, "number:int-parsed", t); }
static bool xsddouble(const string& s0) { size_t b = s0.find_first_not_of(" \n"), e = s0.find_last_not_of(" \n"); if (b == string::npos) return false; string s = s0.substr(b, e - b + 1); size_t i = 0; if (s[i] == '-' || s[i] == '+') ++i; int d = 0; while (i < s.size() && isdigit(s[i])) ++i, ++d; if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit(s[i])) ++i, ++d; } if (!d) return false; if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; int x = 0; while (i < s.size() && isdigit(s[i])) ++i, ++x; if (!x) return false; } return i == s.size(); }
// Texts that may or may not be numbers: the value depends on the text alone.
static void numberText(Run& r) { static const string A = "10-+.e x"; int n = r.pick(thorough ? 7 : 6); string s; for (int i = 0; i < n; ++i) s += A[r.pick(8)]; r.nontrivial(); r.step(); double a = 123, b = -456; kmlbase::FromString(s, &a); kmlbase::FromString(s, &b); r.check(a == b, "number:garbage", "[" + s + "] kept the previous value"); r.check(fabs(a) <= DBL_MAX, "number:not-finite", s); if (xsddouble(s)) { double w = strtod(s.c_str(), NULL); r.check(a == w || (fabs(w) > DBL_MAX && fabs(a) == DBL_MAX), "number:text", "[" + s + "] read " + num(a)); } else if (s.find_first_of("01") == string::npos) r.check(a == 0, "number:no-digits", "[" + s + "] read " + num(a)); int i = 123, j = -456; kmlbase::FromString(s, &i); kmlbase::FromString(s, &j); r.check(i == j, "number:int-garbage", "[" + s + "] kept the previous value"); if (xsddouble(s) && s.find_first_of(".e") == string::npos) { long w = strtol(s.c_str(), NULL, 10); r.check(i == w, "number:int-text", "[" + s + "] read " + num(i)); } kmlbase::FromString(s, (double*)NULL); kmlbase::FromString(s, (int*)NULL); }
static void bools(Run& r) { int n = r.pick(thorough ? 5 : 4); string s; for (int i = 0; i < n; ++i) s += r.of({string("true"), string("false"), string("1"), string("0"), string(" "), string("\n"), string("x"), string("True"), string("tru"), string("-")}); size_t b = s.find_first_not_of(" \n"), e = s.find_last_not_of(" \n"); string t = b == string::npos ? "" : s.substr(b, e - b + 1); bool want = t == "true" || t == "1", g = !want; r.nontrivial(); r.step(); kmlbase::FromString(s, &g); r.check(g == want, "bool:text", "[" + esc(s) + "] read " + num(g)); g = want; kmlbase::FromString(s, &g); r.check(g == want, "bool:text", esc(s)); kmldom::PlacemarkPtr p = kmldom::AsPlacemark(kmldom::Parse("<Placemark><visibility>" + s + "</visibility></Placemark>", NULL)); r.check(p && p->get_visibility() == want, "bool:parsed", esc(s)); r.eq(want ? "1" : "0", kmlbase::ToString(want), "bool:written", ""); kmlbase::FromString(s, (bool*)NULL); }
static void enums(Run& r) {
  struct E { int type; const char* name; }; static const vector<E> T = {{kmldom::Type_altitudeMode, "altitudeMode"}, {kmldom::Type_GxAltitudeMode, "gx:altitudeMode"}, {kmldom::Type_colorMode, "colorMode"}, {kmldom::Type_displayMode, "displayMode"}, {kmldom::Type_GxFlyToMode, "gx:flyToMode"}, {kmldom::Type_gridOrigin, "gridOrigin"}, {kmldom::Type_state, "state"}, {kmldom::Type_listItemType, "listItemType"}, {kmldom::Type_GxPlayMode, "gx:playMode"}, {kmldom::Type_refreshMode, "refreshMode"}, {kmldom::Type_shape, "shape"}, {kmldom::Type_key, "key"}, {kmldom::Type_viewRefreshMode, "viewRefreshMode"}, {kmldom::Type_styleUrl, ""}, {kmldom::Type_Placemark, ""}, {-1, ""}, {kmldom::Type_Invalid, ""}}; const E& t = r.of(T); kmldom::Xsd* x = kmldom::Xsd::GetSchema(); vector<string> v; if (*t.name) v = sch::en(t.name); r.nontrivial(); r.step(); for (int i = -3; i < 20; ++i) { string w = i >= 0 && i < (int)v.size() ? v[i] : ""; r.eq(w, x->EnumValue(t.type, i), "enum:value", string(t.name) + " " + num(i)); } for (auto& u : T) if (*u.name) for (auto& s : sch::en(u.name)) { int w = -1; for (size_t i = 0; i < v.size(); ++i) if (v[i] == s) w = i; r.check(x->EnumId(t.type, s) == w, "enum:id", string(t.name) + " " + s); for (string m : {s + " ", s + "x", s.substr(1), s.substr(0, s.size() - 1), string(1, (char)toupper(s[0])) + s.substr(1), string("")}) { int q = -1; for (size_t i = 0; i < v.size(); ++i) if (v[i] == m) q = i; r.check(x->EnumId(t.type, m) == q, "enum:near", string(t.name) + " [" + m + "]"); } }
}
static void names(Run& r) { int i = r.pick(kmldom::Type_Invalid + 4) - 2; kmldom::Xsd* x = kmldom::Xsd::GetSchema(); r.nontrivial(); r.step(); string n = x->ElementName(i); if (i <= kmldom::Type_Unknown || i >= kmldom::Type_Invalid) { r.check(n.empty() && x->ElementType(i) == kmldom::XSD_UNKNOWN, "names:invalid", num(i)); return; } r.check(!n.empty(), "names:empty", num(i)); int id = x->ElementId(n); if (i == kmldom::Type_IconStyleIcon) r.check(n == "Icon", "names:icon", n); else r.check(id == i, "names:roundtrip", n + " " + num(i) + " " + num(id)); for (string m : {n + "x", " " + n, n + " ", n.substr(1), string("")}) if (m.empty() || x->ElementId(m) == i) r.check(x->ElementId(m) != i, "names:near", m); kmldom::XsdType t = x->ElementType(i); r.check(t == kmldom::XSD_COMPLEX_TYPE || t == kmldom::XSD_SIMPLE_TYPE, "names:type", n); kmldom::ElementPtr e = kmldom::KmlFactory::GetFactory()->CreateElementById((kmldom::KmlDomType)i); if (e) r.check(t == kmldom::XSD_COMPLEX_TYPE, "names:complex", n); }
static int mdays(int y, int m) { static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : D[m - 1]; }
static long long days(int y, int m, int d) { y -= m <= 2; long long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long long)doe - 719468; }
static bool refdate(const string& s, int* f) { static const char* P = "dddd-dd-ddTdd:dd:ddZ"; if (s.size() != strlen(P)) return false; for (size_t i = 0; i < s.size(); ++i) if (P[i] == 'd' ? !isdigit((unsigned char)s[i]) : s[i] != P[i]) return false; f[0] = atoi(s.substr(0, 4).c_str()); int at[] = {5, 8, 11, 14, 17}; for (int i = 0; i < 5; ++i) f[i + 1] = atoi(s.substr(at[i], 2).c_str()); return f[1] >= 1 && f[1] <= 12 && f[2] >= 1 && f[2] <= mdays(f[0], f[1]) && f[3] < 24 && f[4] < 60 && f[5] < 60; }
static void judgeDate(Run& r, const string& s) { int f[6]; bool ok = refdate(s, f); std::unique_ptr<kmlbase::DateTime> d(kmlbase::DateTime::Create(s)); r.nontrivial(); r.step(); r.check((d.get() != NULL) == ok, "date:valid", "[" + s + "] " + (d.get() ? "read as " + d->GetXsdDateTime() : string("refused"))); if (!ok) { r.check(kmlbase::DateTime::ToTimeT(s) == 0, "date:invalid-time", s); return; } long long t = days(f[0], f[1], f[2]) * 86400 + f[3] * 3600 + f[4] * 60 + f[5]; r.check((long long)d->GetTimeT() == t, "date:epoch", s + " gave " + num((double)d->GetTimeT()) + " want " + num((double)t)); r.check((long long)kmlbase::DateTime::ToTimeT(s) == t, "date:epoch", s); r.eq(s.substr(0, 10), d->GetXsdDate(), "date:date", s); r.eq(s.substr(11, 8), d->GetXsdTime(), "date:time", s); r.eq(s, d->GetXsdDateTime(), "date:datetime", s); }
static void dates(Run& r) { static const vector<int> Y = {1, 4, 99, 100, 400, 999, 1000, 1582, 1899, 1900, 1904, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2037, 2038, 2099, 2100, 2400, 9999}; int y = r.of(Y), m = 1 + r.pick(12), d = 1 + r.pick(31); int t = r.pick(5); static const char* T[] = {"00:00:00", "23:59:59", "12:34:56", "00:00:01", "09:08:07"}; char b[40]; snprintf(b, 40, "%04d-%02d-%02dT%sZ", y, m, d, T[t]); judgeDate(r, b); r.state(b); }
static void dateText(Run& r) { string s = r.of({string("2008-10-03T09:25:42Z"), string("1969-02-28T23:00:59Z")}); size_t at = r.pick(s.size() + 1); int k = r.pick(14); static const string C = "x -T:Z091+."; if (k < 11) { if (r.flip()) { if (at == s.size()) r.prune(); s[at] = C[k]; } else s.insert(at, 1, C[k]); } else if (k == 11) s.erase(at); else if (k == 12) { if (at == s.size()) r.prune(); s.erase(at, 1); } else if (at) s.erase(0, at); judgeDate(r, s); }
static void clockText(Run& r) { char b[40]; int h = r.pick(26), m = r.pick(7) * 10, s = r.pick(8) * 9; snprintf(b, 40, "2001-01-01T%02d:%02d:%02dZ", h, m, s); judgeDate(r, b); }
void mc_setup() {
  rule("colors over 9^4 component values through every constructor, setter, getter, text form and comparison; color texts with 0 to 10 digits, spaces and #; doubles over 11 mantissas and 633 exponents and all powers of two with their neighbours; ints around every power of two; all texts of up to 5 characters (6 thorough) over digits, signs, dot, exponent, space and a letter; booleans over up to 3 tokens; all enumerations against all ids and spellings; all element names; 26 years x 12 months x 31 days x 5 times; every one-character edit of two date-times; times of day");
  assume("color text consists of hexadecimal digits; date-times are years 0001 to 9999 in UTC without fractions; leap seconds are not dates");
  add("colors", colors); add("color-text", colorText); add("doubles", doubles); add("powers", powers); add("ints", ints, BOTH, 1); add("number-text", numberText); add("bools", bools); add("enums", enums, BOTH, 1); add("names", names, BOTH, 1); add("dates", dates); add("date-text", dateText); add("clock", clockText);
}
