// P26: CSV text to placemarks.
#include "core.h"
#include <math.h>
#include <strings.h>
#include "kml/base/csv_splitter.h"
#include "kml/base/string_util.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/csv_file.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/convenience.h"
#include "kml/dom.h"
#include <fstream>
using namespace mc; using std::string; using std::vector;
typedef vector<string> V;
static string show(const V& v) { string o = num((int)v.size()) + ":"; for (auto& s : v) o += "[" + esc(s) + "]"; return o; }
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\v' || c == '\f' || c == '\r' || c == '\n'; }
// Reference splitter: fields separated by the delimiter; an unquoted field is trimmed; with ',' a field that starts with a quote runs to the closing quote, "" standing for one quote, and what follows up to the delimiter is ignored.
static V refsplit(const string& s, char d) { V out; if (s.empty()) return out; size_t i = 0; for (;;) { while (i < s.size() && s[i] != d && sp(s[i])) ++i; string f; if (i < s.size() && s[i] == '"' && d == ',') { ++i; for (; i < s.size(); ++i) { if (s[i] == '"') { if (i + 1 < s.size() && s[i + 1] == '"') ++i; else { ++i; break; } } f += s[i]; } while (i < s.size() && s[i] != d) ++i; } else { size_t b = i; while (i < s.size() && s[i] != d) ++i; size_t e = i; while (e > b && sp(s[e - 1])) --e; f = s.substr(b, e - b); } out.push_back(f); if (i >= s.size()) break; ++i; if (i >= s.size()) { out.push_back(""); break; } } return out; }
static void fields(Run& r) { static const string A = "a\", "; int n = r.pick(thorough ? 10 : 8); string s; for (int i = 0; i < n; ++i) s += A[r.pick(4)]; char d = r.of({',', '|', ' '}); if (d != ',' && n > 6) r.prune(); r.nontrivial(); r.step(); V got(1, "before"), want = refsplit(s, d); want.insert(want.begin(), "before"); kmlbase::SplitQuotedUsingFromString(s, d, &got); r.eq(show(want), show(got), "csv:fields", esc(s)); V g2; string two = s + ",zzz"; kmlbase::SplitQuotedUsing(two.data(), s.size(), d, &g2); r.eq(show(want).substr(0), show([&] { V x(g2); x.insert(x.begin(), "before"); return x; }()), "csv:fields-bounded", esc(s)); r.state(show(want)); }
static void fields2(Run& r) { int n = 1 + r.pick(thorough ? 6 : 5); string s; for (int i = 0; i < n; ++i) s += r.of({string("x y"), string("\""), string(","), string("\t"), string("\xc3\xa9"), string("\"\""), string("|"), string("\xff")}); r.nontrivial(); r.step(); V got; kmlbase::SplitQuotedUsingFromString(s, ',', &got); r.eq(show(refsplit(s, ',')), show(got), "csv:fields", esc(s)); }
static V reflines(const string& s) { V out; if (s.empty()) { out.push_back(""); return out; } size_t i = 0; bool first = true; while (i < s.size()) { size_t e = s.find_first_of("\r\n", i); if (e == string::npos) e = s.size(); if (e > i || first) out.push_back(s.substr(i, e - i)); first = false; i = e + 1; } return out; }
static void lines(Run& r) { int n = r.pick(thorough ? 9 : 8); string s; for (int i = 0; i < n; ++i) s += "a,\r\n"[r.pick(4)]; r.nontrivial(); r.step(); r.say(esc(s)); V L = reflines(s); kmlbase::CsvSplitter c(s); for (size_t i = 0; i < L.size(); ++i) { V cols; r.check(c.SplitCurrentLine(i % 2 == 1 && s.size() % 2 ? NULL : &cols), "csv:line-missing", esc(s) + " line " + num((int)i)); if (!(i % 2 == 1 && s.size() % 2)) r.eq(show(refsplit(L[i], ',')), show(cols), "csv:line", esc(s)); } V cols; for (int k = 0; k < 2; ++k) r.check(!c.SplitCurrentLine(&cols) && cols.empty(), "csv:line-extra", esc(s)); r.state(esc(s).substr(0, 3)); }
struct Rep { int line; int status; kmldom::PlacemarkPtr p; };
class Hd : public kmlconvenience::CsvParserHandler { public: vector<Rep> v; int stop; Hd(int s) : stop(s) {} virtual bool HandleLine(int l, kmlconvenience::CsvParserStatus s, kmldom::PlacemarkPtr p) { v.push_back({l, (int)s, p}); return (int)v.size() != stop; } };
static string xesc(const string& s) { string o; for (char c : s) if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else o += c; return o; }
static bool ieq(const string& a, const string& b) { return strcasecmp(a.c_str(), b.c_str()) == 0; }
static bool numeric(const string& s) { char* e; if (s.empty() || !(isdigit(s[0]) || s[0] == '-' || s[0] == '.')) return false; strtod(s.c_str(), &e); return *e == 0 && e != s.c_str(); }
struct Want { int status; V cols; };
static void judgeTable(Run& r, const string& csv, int stop, bool numbered) {
  V L = reflines(csv), schema = refsplit(L[0], ','); auto col = [&](const char* n) { int c = -1; for (size_t i = 0; i < schema.size(); ++i) if (ieq(schema[i], n)) c = i; return c; }; int la = col("latitude"), lo = col("longitude"), nm = col("name"), de = col("description"), fi = col("feature-id"), st = col("style-id"); Hd h(stop); kmlbase::CsvSplitter sp_(csv); bool ok = kmlconvenience::CsvParser::ParseCsv(&sp_, &h); r.nontrivial(); r.step(); r.say(esc(csv));
  if (schema.empty() || la < 0 || lo < 0) { r.check(!ok && h.v.size() == 1 && h.v[0].line == 1 && h.v[0].status == (schema.empty() ? kmlconvenience::CSV_PARSER_STATUS_BLANK_LINE : kmlconvenience::CSV_PARSER_STATUS_NO_LAT_LON) && !h.v[0].p, "csv:schema-status", esc(csv)); return; }
  string head = esc(csv).substr(0, 400); size_t n = L.size() - 1; bool stopped = stop > 0 && (size_t)stop <= n; if (stopped) n = stop; r.check(ok == !stopped, "csv:result", esc(csv)); r.check(h.v.size() == n, "csv:reports", esc(csv) + " gave " + num((int)h.v.size())); string trace;
  for (size_t i = 0; i < n; ++i) { V c = refsplit(L[i + 1], ','); int s = kmlconvenience::CSV_PARSER_STATUS_OK; if (!c.empty() && c[0][0] == '#') s = kmlconvenience::CSV_PARSER_STATUS_COMMENT; else if (c.size() != schema.size()) s = kmlconvenience::CSV_PARSER_STATUS_INVALID_DATA; else if (!numeric(c[la]) || !numeric(c[lo])) s = kmlconvenience::CSV_PARSER_STATUS_BAD_LAT_LON; string what = head + " line " + num((int)i + 2); const Rep& q = h.v[i]; r.check(q.status == s, "csv:status", what + " status " + num(q.status) + " want " + num(s)); if (numbered) r.check(q.line == (int)i + 2, "csv:line-number", what); r.check(q.p != NULL, "csv:no-placemark", what); trace += num(s); if (s) { r.eq("<Placemark/>", kmldom::SerializeRaw(q.p), "csv:leftovers", what); continue; } kmldom::PlacemarkPtr p = q.p; r.check(p->has_name() == (nm >= 0) && (nm < 0 || p->get_name() == c[nm]), "csv:name", what); r.check(p->has_description() == (de >= 0) && (de < 0 || p->get_description() == c[de]), "csv:description", what); bool hid = fi >= 0 && !c[fi].empty(), hst = st >= 0 && !c[st].empty(); r.check(p->has_id() == hid && (!hid || p->get_id() == "feature-" + c[fi]), "csv:id", what); r.check(p->has_styleurl() == hst && (!hst || p->get_styleurl() == "style.kml#style-" + c[st]), "csv:style", what); kmldom::PointPtr pt = kmldom::AsPoint(p->get_geometry()); r.check(pt && pt->has_coordinates() && pt->get_coordinates()->get_coordinates_array_size() == 1, "csv:point", what); kmlbase::Vec3 v = pt->get_coordinates()->get_coordinates_array_at(0); r.check(v.get_latitude() == strtod(c[la].c_str(), NULL) && v.get_longitude() == strtod(c[lo].c_str(), NULL), "csv:position", what); V want, got; for (size_t k = 0; k < schema.size(); ++k) if ((int)k != la && (int)k != lo && (int)k != nm && (int)k != de && (int)k != fi && (int)k != st) want.push_back(schema[k] + "=" + c[k]); if (p->has_extendeddata()) for (size_t k = 0; k < p->get_extendeddata()->get_data_array_size(); ++k) { kmldom::DataPtr d = p->get_extendeddata()->get_data_array_at(k); got.push_back(d->get_name() + "=" + d->get_value()); } r.eq(show(want), show(got), "csv:extra", what); }
  r.state(trace);
}
// All column orders of up to 4 (5) of 8 columns with lines of every kind.
static void tables(Run& r) {
  static const V C = {"latitude", "longitude", "name", "Description", "feature-id", "STYLE-ID", "pop", "x y"}; int n = 2 + r.pick(thorough ? 4 : 3); vector<int> cols; for (int i = 0; i < n; ++i) { int c = r.pick(C.size()); for (int k : cols) if (k == c) r.prune(); cols.push_back(c); } string s; for (int i = 0; i < n; ++i) s += (i ? "," : "") + C[cols[i]]; int lines_ = r.pick(3); if (n > 3 && lines_ == 2 && !thorough) r.prune(); for (int l = 0; l < lines_; ++l) { s += "\n"; int kind = r.pick(n > 3 ? 5 : 9); string line; for (int i = 0; i < n; ++i) { string f; switch (cols[i]) { case 0: f = kind == 1 ? "north" : kind == 5 ? "" : kind == 7 ? "-.5" : kind == 8 ? "1x" : num(10 + l); break; case 1: f = kind == 6 ? "--1" : kind == 7 ? "-180" : num(-20.5 - l); break; default: f = kind == 4 ? "" : kind == 7 ? "\"q, \"\"" + num(l) + "\"\"\"" : C[cols[i]] + num(l); } line += (i ? "," : "") + f; } if (kind == 2) line += ",more"; if (kind == 3) line = "# " + line; s += line; } judgeTable(r, s, 0, true);
}
static void histories(Run& r) { static const V M = {"1,2,n,e", "#c", "1,2", "x,2,n,e", "3,4,,", "5,6,\"a,b\",\"\"", " 7 , 8 , m , f ", ",,,", "9,1e1,n,1,2", "-1.25,.5,#n,#"}; static const V E = {"\n", "\r\n", "\r", "\n\n", "\r\n\r\n"}; int n = r.pick(thorough ? 5 : 4); string s = "latitude,longitude,name,extra"; bool num_ = true; int e = r.pick(E.size()); if (e > 2) num_ = false; for (int i = 0; i < n; ++i) s += E[e] + r.of(M); if (r.flip()) s += E[e]; int stop = r.pick(n + 2); judgeTable(r, s, stop, num_); }
static void schemas(Run& r) { string s = r.of({string(""), string("\n"), string("\r\nlatitude,longitude"), string("latitude"), string("longitude,name"), string("LATITUDE,Longitude"), string("lat,lon"), string(" latitude , longitude "), string("\"latitude\",\"longitude\""), string("#latitude,longitude"), string("latitude,longitude,"), string("name"), string(","), string("latitudes,longitude")}); s += r.of({string(""), string("\n"), string("\n1,2"), string("\n1,2,\n#")}); judgeTable(r, s, r.pick(3), true); kmlbase::CsvSplitter c("latitude,longitude\n1,2"); Hd h(0); r.check(!kmlconvenience::CsvParser::ParseCsv(NULL, &h) && !kmlconvenience::CsvParser::ParseCsv(&c, NULL) && h.v.empty(), "csv:null", ""); kmlconvenience::CsvParserHandler dflt; r.check(kmlconvenience::CsvParser::ParseCsv(&c, &dflt), "csv:default-handler", ""); }
static void numbers(Run& r) { string s; int n = r.pick(thorough ? 6 : 5); for (int i = 0; i < n; ++i) s += "-.15e x"[r.pick(7)]; r.nontrivial(); r.step(); char* e = NULL; double w = strtod(s.c_str(), &e); while (e != s.c_str() && sp(*e)) ++e; bool ok = !s.empty() && !sp(s[0]) && s[0] != '+' && e != s.c_str() && *e == 0 && (isdigit(s[0]) || s[0] == '-' || s[0] == '.'); double g = 777; bool got = kmlbase::StringToDouble(s, &g); r.check(got == ok, "csv:number", "[" + s + "] gave " + (got ? num(g) : "false")); if (ok) r.check(g == w, "csv:number-value", s + " " + num(g)); r.check(kmlbase::StringToDouble(s, NULL) == ok && kmlbase::StringToDouble(s.c_str(), NULL) == ok, "csv:number-null", s); }
static void separators(Run& r) { int n = r.pick(thorough ? 8 : 7); string s; for (int i = 0; i < n; ++i) s += r.of({string("a"), string("|"), string("-")}); string d = r.of({string("|"), string("--"), string("|-"), string("a|a"), string("zz")}); V want(1, "before"), got(1, "before"); size_t i = 0, e; while ((e = s.find(d, i)) != string::npos) { want.push_back(s.substr(i, e - i)); i = e + d.size(); } want.push_back(s.substr(i)); kmlbase::SplitStringUsing(s, d, &got); r.nontrivial(); r.step(); r.eq(show(want), show(got), "csv:separator", s + " by " + d); }
// Pipe-separated files: score|latitude|longitude|name|description[|style].
static void pipes(Run& r) { static const V M = {"5|1.5|-2.5|n|d", "7|3|4|n2|d2|#s", "bad|1", "", "1|2|3||", "0|0|0|x|y|z|w"}; static const V E = {"\n", "\r\n"}; int n = r.pick(thorough ? 5 : 4), e = r.pick(2); string s, want; for (int i = 0; i < n; ++i) { string l = r.of(M); bool last = i == n - 1 && r.flip(); s += l + (last ? "" : E[e]); V c; size_t a = 0, b; while ((b = l.find('|', a)) != string::npos) { c.push_back(l.substr(a, b - a)); a = b + 1; } c.push_back(l.substr(a)); if (c.size() >= 5) want += c[3] + "/" + c[4] + "/" + num(strtod(c[1].c_str(), NULL)) + "/" + num(strtod(c[2].c_str(), NULL)) + "/" + num(atoi(c[0].c_str())) + "/" + (c.size() > 5 ? c[5] : "-") + " "; } { std::ofstream o("in.csv", std::ios::binary); o << s; } kmlconvenience::FeatureList fl; kmlconvenience::CsvFile f(&fl); f.ParseCsvFile("in.csv"); kmldom::FolderPtr d = kmldom::KmlFactory::GetFactory()->CreateFolder(); fl.Save(d); string got; for (size_t i = 0; i < d->get_feature_array_size(); ++i) { kmldom::PlacemarkPtr p = kmldom::AsPlacemark(d->get_feature_array_at(i)); kmldom::PointPtr q = kmldom::AsPoint(p->get_geometry()); kmlbase::Vec3 v = q->get_coordinates()->get_coordinates_array_at(0); got += p->get_name() + "/" + p->get_description() + "/" + num(v.get_latitude()) + "/" + num(v.get_longitude()) + "/" + num(kmlconvenience::GetFeatureScore(p)) + "/" + (p->has_styleurl() ? p->get_styleurl() : "-") + " "; } r.nontrivial(); r.step(); r.eq(want, got, "csv:pipe-file", esc(s)); kmlconvenience::CsvFile none(&fl); size_t k = fl.Size(); none.ParseCsvFile("does-not-exist"); r.check(fl.Size() == k, "csv:no-file", ""); }
// Column names are recognised whatever their case, alone and in company.
static void cases(Run& r) { static const V C = {"latitude", "longitude", "name", "description", "feature-id", "style-id"}; int c = r.pick(6), how = r.pick(4), other = r.pick(3); string s, line; for (int i = 0; i < 6; ++i) { string n = C[i]; int h = i == c ? how : other == 2 ? 1 : other; for (size_t k = 0; k < n.size(); ++k) if (h == 1 || (h == 2 && k == 0) || (h == 3 && k + 1 == n.size())) n[k] = toupper(n[k]); s += (i ? "," : "") + n; line += (i ? "," : "") + (i < 2 ? num(i + 1) : string("v") + num(i)); } if (r.flip()) { s += ",Extra"; line += ",e"; } judgeTable(r, s + "\n" + line, 0, true); }
// Many lines, many columns, long fields: a bad line at any of several places changes nothing for the others.
static void scale(Run& r) { static const int N[] = {5, 17, 33, 65, 129, 257, 1025}; int what = r.pick(5), n = N[r.pick(7)], at = r.pick(4), bad = r.pick(5); string s = "latitude,longitude,name,description,feature-id", e = r.flip() ? "\r\n" : "\n"; int b = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n - 2; static const V B = {"#c", "1,2", "x,2,n,d,f", "1,2,n,d,f,g", "1,2,\"q,\"\"\",,f"};
  if (what == 0) { for (int i = 0; i < n; ++i) s += e + (i == b ? B[bad] : num(i % 90) + "," + num(-i % 180) + ",n" + num(i) + ",d,f" + num(i)); }
  else if (what == 1) { string l = "1,2,n,d,f"; for (int i = 0; i < n; ++i) { s += ",c" + num(i); l += i == b ? "" : string(",v") + num(i); } if (bad) l += ",z"; s += e + l + e + l; }
  else if (what == 2) { static const V F = {"x", "x y", "\"\"", ",", "\xc3\xa9"}; string q; for (int i = 0; i < n; ++i) q += i == b ? F[bad] : string("a"); s += e + "1,2,\"" + q + "\",d,f" + e + "3,4,n,d,\"" + q + "\""; }
  else if (what == 3) { for (int i = 0; i < n; ++i) s += e + (i == b ? B[bad] : string("#"))  ; s += e + "3,4,last,d,f"; }
  else { string q(n, bad == 0 ? ' ' : bad == 1 ? '\t' : 'k'); s += e + "1," + (bad < 2 ? q : "") + "2," + q + "n,d,f" + (at ? q : string("")) + e + "3,4,m,d,f"; }
  judgeTable(r, s, bad == 4 && what == 0 ? b + 1 : 0, true); }
void mc_setup() {
  rule("every line of up to 7 characters (9 thorough) over letter, quote, separator and space, and of up to 5 tokens with multi-byte text, against a reference splitter; every text of up to 7 characters over letter, comma, CR and LF; tables with every order of 2 to 4 of 8 columns and lines of 9 kinds; histories of up to 3 lines of 10 kinds with 5 line endings stopped after every report; schema lines; number texts up to 4 characters; separators; pipe-separated files; every well-known column name in 4 spellings; tables of 5 to 1025 lines, columns and characters with an odd one in 4 places");
  assume("no NUL bytes; blank lines are not lines except as the first; line numbers are judged where there is no blank line; repeated schema columns are not covered");
  add("fields", fields); add("tokens", fields2); add("lines", lines); add("tables", tables); add("histories", histories); add("schemas", schemas, BOTH, 1); add("numbers", numbers); add("separators", separators); add("pipes", pipes);
  add("cases", cases); add("scale", scale, BOTH, 1);
}
