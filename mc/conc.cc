// P29: independent uses of the library.  Every execution runs in a forked
// child that starts from the pristine state of the library; its operations must
// yield exactly what each of them yields alone in a pristine process.
#include "kml/convenience/http_client.h"
#include "kml/convenience/google_maps_data.h"
#include "core.h"
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <string.h>
#include <stdio.h>
#include <algorithm>
#include <memory>
#include "zipmk.h"
#include "kml/base/attributes.h"
#include "kml/base/csv_splitter.h"
#include "kml/base/color32.h"
#include "kml/base/date_time.h"
#include "kml/base/expat_handler.h"
#include "kml/base/expat_parser.h"
#include "kml/base/file.h"
#include "kml/base/math_util.h"
#include "kml/base/net_cache.h"
#include "kml/base/string_util.h"
#include "kml/base/uri_parser.h"
#include "kml/base/vec3.h"
#include "kml/base/zip_file.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/element_counter.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
#include "kml/dom.h"
#include "kml/dom/parser.h"
#include "kml/dom/parser_observer.h"
#include "kml/engine.h"
#include "kml/engine/entity_mapper.h"
#include "kml/engine/find.h"
#include "kml/engine/feature_balloon.h"
#include "kml/engine/feature_view.h"
#include "kml/engine/get_links.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kml_uri_internal.h"
#include "kml/engine/location_util.h"
#include "kml/engine/merge.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/style_splitter.h"
#include "kml/engine/update.h"
#include "kml/regionator/region_handler.h"
#include "kml/regionator/regionator.h"
#include "kml/xsd/xsd_file.h"
using namespace mc; using std::string; using std::vector;

// ---- yield points
typedef void (*YieldFn)();
static YieldFn on_yield;
static void Y() { if (on_yield) on_yield(); }

// ---- the operations: variant v has other data of the same shape
static string W(int v, const char* a, const char* b) { return v ? b : a; }
class Obs : public kmldom::ParserObserver {
 public:
  string log;
  bool NewElement(const kmldom::ElementPtr& e) { log += "<" + mc::str(e->Type()); Y(); return true; }
  bool AddChild(const kmldom::ElementPtr& p, const kmldom::ElementPtr& c) { log += ">" + mc::str(p->Type()) + "." + mc::str(c->Type()); Y(); return true; }
};
static string show(const kmldom::ElementPtr& e) { return e ? kmldom::SerializePretty(e) : string("null"); }
static string doc(int v) {
  return v ? "<kml><Folder id=\"ff\"><name>second</name><open>1</open><Placemark id=\"p9\"><name>x &amp; y</name><LineString><coordinates>1,2,3 4,5,6</coordinates></LineString></Placemark></Folder></kml>"
           : "<kml><Document id=\"dd\"><name>first one</name><Style id=\"s\"><IconStyle><color>ff00ff00</color></IconStyle></Style><Placemark id=\"p1\"><description>a<b>c</b></description><Point><coordinates>-10.5,20.25,7</coordinates></Point></Placemark></Document></kml>";
}
static string op_parse(int v) { string e; kmldom::ElementPtr x = kmldom::Parse(doc(v), &e); Y(); return show(x) + kmldom::SerializeRaw(x) + e; }
static string op_observe(int v) { kmldom::Parser p; Obs a, b; p.AddObserver(&a); p.AddObserver(&b); string e; kmldom::ElementPtr x = p.Parse(doc(v), &e); return a.log + "|" + b.log + show(x); }
static string op_bad(int v) { string e; kmldom::ElementPtr x = kmldom::Parse(W(v, "<kml><Placemark><name>a</name>", "<Folder>\n<name>b</nam></Folder>"), &e); Y(); return show(x) + "/" + e; }
static string op_unknown(int v) { string e; kmldom::ElementPtr x = kmldom::Parse(W(v, "<Placemark><foo k=\"1\"><description>in</description></foo><name>n</name></Placemark>", "<Folder><bar><name>zz</name>&lt;</bar><description>d<i/>e</description></Folder>"), &e); Y(); return show(x); }
static string op_old(int v) { kmldom::Parser p; Obs a; p.AddObserver(&a); string e; string S = W(v, "S", "Type"), F = W(v, "F", "Field"); kmldom::ElementPtr x = p.Parse("<Document><Schema name=\"" + S + "\" parent=\"Placemark\"><SimpleField name=\"" + F + "\"/></Schema><" + S + "><" + F + ">" + W(v, "1", "22") + "</" + F + "></" + S + "><" + F + "/></Document>", &e); return a.log + show(x); }
static string op_ns(int v) { string e; kmldom::ElementPtr x = kmldom::ParseNS(W(v, "<k:Placemark xmlns:k=\"http://www.opengis.net/kml/2.2\"><k:name>n</k:name></k:Placemark>", "<a:feed xmlns:a=\"http://www.w3.org/2005/Atom\"><a:title>t</a:title></a:feed>"), &e); Y(); return show(x) + e; }
static string op_file(int v) { string e; std::unique_ptr<kmlengine::KmlFile> f(kmlengine::KmlFile::CreateFromParse(doc(v), &e)); Y(); string o, s; f->SerializeToString(&s); o = s; Y(); for (string id : {"dd", "ff", "s", "p1", "p9"}) { o += f->GetObjectById(id) ? "1" : "0"; o += f->GetSharedStyleById(id) ? "1" : "0"; } return o; }
static string op_stream(int v) { struct C { string o; } c; std::istringstream is(doc(v)); string e; std::unique_ptr<kmlengine::KmlStream> s(kmlengine::KmlStream::ParseFromIstream(&is, &e, NULL)); Y(); return s.get() ? show(s->get_root()) : "null" + e; }
class XH : public kmlbase::ExpatHandler { public: string log; void StartElement(const string& n, const kmlbase::StringVector& a) { log += "(" + n; for (auto& s : a) log += "," + s; Y(); } void EndElement(const string& n) { log += ")" + n; Y(); } void CharData(const string& s) { log += "'" + s; } };
static string op_expat(int v) { string x = W(v, "<a k=\"v\"><b>text</b><c/></a>", "<root><n m=\"o\" p=\"q\">longer text</n></root>"); XH h; kmlbase::ExpatParser p(&h, false); string e; for (size_t i = 0; i < x.size(); i += 7) { string part = x.substr(i, 7); void* b = p.GetInternalBuffer(part.size()); memcpy(b, part.data(), part.size()); if (!p.ParseBuffer(part, &e, i + 7 >= x.size())) return "fail " + e; Y(); } return h.log; }
static string zip_bytes(int v) { return v ? zipmk::make({zipmk::E("files/a.txt", "other text entirely"), zipmk::E("main.kml", "<Placemark><name>zz</name></Placemark>", 8)}) : zipmk::make({zipmk::E("doc.kml", doc(0), 8), zipmk::E("files/i.png", string(3000, 'x'), 8)}); }
static string op_kmz(int v) { kmlengine::KmzFilePtr k = kmlengine::KmzFile::OpenFromString(zip_bytes(v)); if (!k) return "null"; vector<string> l; k->List(&l); Y(); string o; for (auto& n : l) { string d; o += n + "=" + (k->ReadFile(n.c_str(), &d) ? d : "fail") + ";"; Y(); } string d; k->ReadKml(&d); return o + d; }
static string op_zip(int v) { std::unique_ptr<kmlbase::ZipFile> z(kmlbase::ZipFile::OpenFromString(zip_bytes(v))); string t, o; o += z->FindFirstOf(".kml", &t) ? t : "-"; Y(); string d; o += z->GetEntry(W(v, "files/i.png", "files/a.txt"), &d) ? d : "fail"; Y(); o += z->IsInToc("doc.kml") ? "1" : "0"; o += z->GetEntry("absent", &d) ? "1" : "0"; return o; }
static __thread int g_task;
static string op_write(int v) { string f = "w" + mc::str(getpid()) + "_" + mc::str(g_task) + mc::str(v); unlink(f.c_str()); { std::unique_ptr<kmlbase::ZipFile> z(kmlbase::ZipFile::Create(f.c_str())); if (!z.get()) return "null"; z->AddEntry(W(v, "one", "two two"), "doc.kml"); Y(); z->AddEntry(W(v, "1111", "2"), "files/a"); Y(); } string o; std::unique_ptr<kmlbase::ZipFile> z(kmlbase::ZipFile::OpenFromFile(f.c_str())); Y(); string d; o += z->GetEntry("doc.kml", &d) ? d : "fail"; o += z->GetEntry("files/a", &d) ? d : "fail"; z.reset(); kmlbase::File::Delete(f); return o; }
static string op_rw(int v) { string f = "f" + mc::str(getpid()) + "_" + mc::str(g_task) + mc::str(v), d; kmlbase::File::WriteStringToFile(W(v, "content", "different text"), f); Y(); bool ok = kmlbase::File::ReadFileToString(f, &d); kmlbase::File::Delete(f); string b, n; kmlbase::File::SplitFilePath(W(v, "a/b/c.kml", "dir/x"), &b, &n); return d + (ok ? "ok" : "no") + b + "|" + n + kmlbase::File::JoinPaths(W(v, "a", "b/"), "c"); }
class CH : public kmlconvenience::CsvParserHandler { public: string o; bool HandleLine(int l, kmlconvenience::CsvParserStatus s, kmldom::PlacemarkPtr p) { o += mc::str(l) + ":" + mc::str(s) + show(p); Y(); return true; } };
static string op_csv(int v) { kmlbase::CsvSplitter c(W(v, "name,latitude,longitude,pop\na,1,2,3\n#c\n\"q,r\",4,5,6\nbad\n", "latitude,description,longitude\r\n-1.5,dd,2\r\n3,\"e\"\"f\",7\r\n")); CH h; kmlconvenience::CsvParser::ParseCsv(&c, &h); return h.o; }
static string op_split(int v) { vector<string> o; kmlbase::SplitStringUsing(W(v, "a,b,,c", "one|two"), W(v, ",", "|"), &o); kmlbase::SplitQuotedUsingFromString(W(v, "x,\"y,z\"", "\"p\"\"q\",r"), ',', &o); string s; for (auto& x : o) s += "[" + x + "]"; return s + kmlbase::ToString(v ? 1.0 / 3 : -179.123456789012) + kmlbase::ToString(v ? 7 : -123456) + (kmlbase::StringEndsWith("abc", W(v, "bc", "x")) ? "1" : "0"); }
static string op_uri(int v) { string o; for (string b : {"http://h/a/b.kml", "x/y.kmz"}) for (string r : {W(v, "../c.png", "d/e.kml?q#f"), W(v, "k.kmz/in.kml", "http://o/p")}) { std::unique_ptr<kmlengine::KmlUri> k(kmlengine::KmlUri::CreateRelative(b, r)); if (k.get()) o += k->get_url() + "|" + k->get_kmz_url() + "|" + k->get_path_in_kmz() + ";"; string s; if (kmlengine::ResolveUri(b, r, &s)) o += s + ";"; Y(); } string n; kmlengine::NormalizeUri(W(v, "HTTP://A/./b", "http://x/%7ey"), &n); return o + n + (kmlengine::FilenameToUri(W(v, "/a b", "/c"), &n) ? n : ""); }
static string op_time(int v) { std::unique_ptr<kmlbase::DateTime> d(kmlbase::DateTime::Create(W(v, "2008-10-03T09:25:42Z", "1999-12-31T23:59:58Z"))); if (!d.get()) return "null"; Y(); return mc::str(d->GetTimeT()) + d->GetXsdDateTime() + d->GetXsdTime() + d->GetXsdDate(); }
static string op_color(int v) { kmlbase::Color32 c(W(v, "a1b2c3d4", "0f")); string o = c.to_string_abgr() + c.to_string_argb(); c.set_red(v ? 17 : 200); kmlbase::Vec3 x(v ? 1.5 : -3, 2, v ? 9 : 8); return o + c.to_string_abgr() + kmlbase::ToString(x.get_longitude()); }
static string op_attrs(int v) { kmlbase::StringVector s = v ? kmlbase::StringVector{"id", "z", "x:k", "w"} : kmlbase::StringVector{"a", "1", "xmlns:gx", "u", "b", "2"}; std::unique_ptr<kmlbase::Attributes> a(kmlbase::Attributes::Create(s)); string o; a->Serialize(&o); Y(); std::unique_ptr<kmlbase::Attributes> x(a->SplitByPrefix(W(v, "xmlns", "x"))); if (x.get()) x->Serialize(&o); a->Serialize(&o); return o; }
static string op_balloon(int v) { std::unique_ptr<kmlengine::KmlFile> f(kmlengine::KmlFile::CreateFromString(W(v, "<Document><Style id=\"s\"><BalloonStyle><text>$[name]-$[d]</text></BalloonStyle></Style><Placemark id=\"p\"><name>N</name><styleUrl>#s</styleUrl><ExtendedData><Data name=\"d\"><value>V</value></Data></ExtendedData></Placemark></Document>", "<Document><Placemark id=\"p\"><name>other</name><description>$[name] by $[id]</description></Placemark></Document>"))); Y(); kmlengine::KmlFilePtr p(f.release()); return kmlengine::CreateBalloonText(p, kmldom::AsFeature(p->GetObjectById("p"))); }
static string op_style(int v) { kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromString(W(v, "<Document><Style id=\"a\"><LineStyle><width>2</width></LineStyle></Style><StyleMap id=\"m\"><Pair><key>normal</key><styleUrl>#a</styleUrl></Pair></StyleMap><Placemark id=\"p\"><styleUrl>#m</styleUrl></Placemark></Document>", "<Document><Style id=\"z\"><IconStyle><scale>3</scale></IconStyle></Style><Placemark id=\"p\"><styleUrl>#z</styleUrl><Style><PolyStyle><fill>0</fill></PolyStyle></Style></Placemark></Document>")); Y(); return show(kmlengine::CreateResolvedStyle(kmldom::AsFeature(f->GetObjectById("p")), f, kmldom::STYLESTATE_NORMAL)); }
static string op_inline(int v) { string x = W(v, "<kml><Document><Style id=\"a\"><LineStyle><width>2</width></LineStyle></Style><Placemark><styleUrl>#a</styleUrl></Placemark></Document></kml>", "<kml><Document><Placemark><Style><IconStyle><scale>3</scale></IconStyle></Style></Placemark><Placemark><Style/></Placemark></Document></kml>"), e; string o = show(kmlengine::InlineStyles(x, &e)); Y(); return o + show(kmlengine::SplitStyles(x, &e)); }
static string op_update(int v) { kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromString("<Document id=\"d\"><Placemark id=\"p\"><name>a</name></Placemark><Placemark id=\"q\"/></Document>"); Y(); kmldom::UpdatePtr u = kmldom::AsUpdate(kmldom::Parse(W(v, "<Update><Change><Placemark targetId=\"p\"><name>b</name></Placemark></Change><Delete><Placemark targetId=\"q\"/></Delete></Update>", "<Update><Create><Document targetId=\"d\"><Folder id=\"n\"/></Document></Create></Update>"), NULL)); Y(); kmlengine::ProcessUpdate(u, f); return show(f->get_root()); }
static string op_links(int v) { vector<string> l; kmlengine::GetLinks(W(v, "<Document><NetworkLink><Link><href>a.kml</href></Link></NetworkLink><GroundOverlay><Icon><href>b.png</href></Icon></GroundOverlay></Document>", "<Document><Placemark><styleUrl>s.kml#x</styleUrl></Placemark><PhotoOverlay><Icon><href>zz</href></Icon></PhotoOverlay></Document>"), &l); string o; for (auto& s : l) o += s + ";"; return o; }
static string op_bounds(int v) { kmldom::FeaturePtr f = kmldom::AsFeature(kmldom::AsKml(kmldom::Parse(doc(v), NULL))->get_feature()); Y(); kmlengine::Bbox b; kmlengine::GetFeatureBounds(f, &b); Y(); return num(b.get_north()) + num(b.get_south()) + num(b.get_east()) + num(b.get_west()) + show(kmlengine::ComputeFeatureLookAt(f)); }
static string op_clone(int v) { kmldom::ElementPtr e = kmldom::Parse(doc(v), NULL), c = kmlengine::Clone(e); Y(); kmldom::ElementPtr t = kmldom::Parse(doc(v), NULL); kmlengine::MergeElements(kmldom::Parse(W(v, "<kml hint=\"h\"><Document><name>m</name></Document></kml>", "<kml><Folder><visibility>0</visibility></Folder></kml>"), NULL), t); return show(c) + show(t); }
class Net : public kmlbase::NetFetcher { public: int v; bool FetchUrl(const string& u, string* d) const { Y(); if (u.find("none") != string::npos) return false; *d = u.find("kmz") != string::npos ? zip_bytes(v) : u.find("kml") != string::npos ? doc(v) : "raw" + u; return true; } };
static string op_cache(int v) { Net n; n.v = v; kmlengine::KmlCache c(&n, 2); string o, d; for (string u : {W(v, "a.kml", "b.kml"), W(v, "c.kmz/doc.kml", "c.kmz/main.kml"), string("none.kml"), W(v, "a.kml", "x.kml")}) { kmlengine::KmlFilePtr f = c.FetchKmlRelative("http://h/", u); o += f ? show(f->get_root()) : "null"; } o += c.FetchDataRelative("http://h/", W(v, "i.png", "c.kmz/files/a.txt"), &d) ? d : "fail"; return o; }
class RH : public kmlregionator::RegionHandler { public: string log; int v; bool HasData(const kmldom::RegionPtr& g) { Y(); log += "?" + g->get_id(); return g->get_id().size() < (v ? 3 : 2); } kmldom::FeaturePtr GetFeature(const kmldom::RegionPtr& g) { Y(); kmldom::PlacemarkPtr p = kmldom::KmlFactory::GetFactory()->CreatePlacemark(); p->set_name(g->get_id()); return p; } void SaveKml(const kmldom::KmlPtr& k, const string& n) { log += n + show(k); } };
static string op_region(int v) { RH h; h.v = v; kmlregionator::Regionator r(h, kmlconvenience::CreateRegion2d(v ? 8 : 40, v ? 0 : -20, v ? 8 : 170, v ? 0 : 10, 128, -1)); r.Regionate(NULL); return h.log; }
static string op_xsd(int v) { string e; string x = "<schema xmlns=\"http://www.w3.org/2001/XMLSchema\" targetNamespace=\"http://t\" xmlns:t=\"http://t\"><element name=\"" + W(v, "A", "Bee") + "\" type=\"t:T\"/><element name=\"s\" type=\"string\"/><complexType name=\"T\"><sequence><element ref=\"t:s\"/></sequence></complexType></schema>"; std::unique_ptr<kmlxsd::XsdFile> f(kmlxsd::XsdFile::CreateFromParse(x, &e)); if (!f.get()) return "null" + e; Y(); kmlxsd::XsdElementVector a; f->GetAllElements(&a); string o = f->get_target_namespace(); for (auto& p : a) o += p->get_name() + ";"; kmlxsd::XsdElementVector ch; f->GetChildElements(W(v, "A", "Bee"), &ch); for (auto& p : ch) o += "." + p->get_name(); return o; }
static string op_geo(int v) { kmlbase::Vec3 x = kmlbase::LatLngOnRadialFromPoint(v ? 10 : -45, v ? 20 : 170, 1000, v ? 30 : 300); return num(x.get_latitude()) + num(x.get_longitude()) + num(kmlbase::DistanceBetweenPoints(1, 2, v ? 3 : 4, 5)) + show(kmlconvenience::CreateCoordinatesCircle(v ? 1 : 2, 3, 500, 4)); }
static string op_dom(int v) { kmldom::KmlFactory* f = kmldom::KmlFactory::GetFactory(); kmldom::FolderPtr d = f->CreateFolder(); d->set_name(W(v, "n1", "nn22")); Y(); for (int i = 0; i < 2 + v; ++i) { kmldom::PlacemarkPtr p = f->CreatePlacemark(); p->set_id("i" + mc::str(i)); p->set_geometry(kmlconvenience::CreatePointLatLon(i, v)); d->add_feature(p); Y(); } kmldom::FeaturePtr g = d->DeleteFeatureAt(0); kmlconvenience::ElementCountMap m; { kmldom::Parser p; kmlconvenience::ElementCounter ec(&m); p.AddObserver(&ec); p.Parse(show(d), NULL); }; string o; for (auto& k : m) o += mc::str(k.first) + "=" + mc::str(k.second) + ","; return show(d) + show(g) + o; }
class GP : public kmlconvenience::GpxTrkPtHandler { public: string o; void HandlePoint(const kmlbase::Vec3& w, const string& t) { o += num(w.get_longitude()) + "," + num(w.get_latitude()) + "," + num(w.get_altitude()) + "@" + t + ";"; Y(); } };
static string op_gpx(int v) { GP g; string e; kmlbase::ExpatParser::ParseString(W(v, "<gpx><trk><trkseg><trkpt lat=\"1\" lon=\"2\"><ele>3</ele><time>t1</time></trkpt><trkpt lat=\"4\" lon=\"5\"><time>t2</time></trkpt></trkseg></trk></gpx>", "<gpx><trkpt lat=\"-8\" lon=\"9\"><ele>77</ele><time>zz</time></trkpt></gpx>"), &g, &e, false); return g.o + e; }
static string op_esc(int v) { kmldom::PlacemarkPtr p = kmldom::KmlFactory::GetFactory()->CreatePlacemark(); p->set_name(W(v, "a ]]> b & < c", "<![CDATA[x<y]]>")); p->set_description(W(v, "line\r\n\"quote\"'", "<b>bold &amp; more</b>")); p->set_id(W(v, "i&\"<", "j'>\t")); p->set_address(W(v, "", "  ")); Y(); string x = kmldom::SerializeRaw(p), e; Y(); kmldom::ElementPtr q = kmldom::Parse(x, &e); return x + show(q) + e; }
static string op_vals(int v) { string e, x = W(v, "<Document><GroundOverlay><color>7f112233</color><drawOrder>-4</drawOrder><altitudeMode>absolute</altitudeMode><LatLonBox><north>1.25</north><rotation>-7</rotation></LatLonBox></GroundOverlay><Style><IconStyle><colorMode>random</colorMode><hotSpot x=\"0.5\" y=\"2\" xunits=\"pixels\" yunits=\"insetPixels\"/></IconStyle><ListStyle><ItemIcon><state>open error</state></ItemIcon></ListStyle></Style></Document>", "<Document><Placemark><gx:Track><altitudeMode>bogus</altitudeMode><when>2001-02-03</when><gx:coord>1 2 3</gx:coord><gx:coord>4 5 6</gx:coord></gx:Track></Placemark><Placemark><Camera><gx:altitudeMode>clampToSeaFloor</gx:altitudeMode><tilt>1e2</tilt></Camera><TimeSpan><begin>1999</begin></TimeSpan></Placemark><NetworkLink><Link><refreshMode>onExpire</refreshMode><viewRefreshTime>.5</viewRefreshTime></Link></NetworkLink></Document>"); kmldom::ElementPtr d = kmldom::Parse(x, &e); Y(); kmlengine::KmlFilePtr f = kmlengine::KmlFile::CreateFromImport(d); string o; Y(); if (f) f->SerializeToString(&o); return o + show(d) + e; }
class Web : public kmlconvenience::HttpClient { public: int v; Web(int w) : HttpClient("app"), v(w) {} bool SendRequest(kmlconvenience::HttpMethodEnum m, const string& u, const kmlconvenience::StringPairVector*, const string* d, string* o) const { Y(); if (o) *o = m == kmlconvenience::HTTP_POST ? "SID=1\nAuth=" + mc::str(v) + "tok\n" : "<feed xmlns=\"http://www.w3.org/2005/Atom\" xmlns:k=\"http://www.opengis.net/kml/2.2\">" + string(u == "n" ? "" : "<link rel=\"next\" href=\"n\"/>") + "<entry><title>" + u + mc::str(v) + "</title><content><k:Placemark><k:name>" + W(v, "one", "other") + "</k:name></k:Placemark></content></entry></feed>"; if (d && o) *o += *d; return true; } };
static string op_web(int v) { Web* w = new Web(v); string o = w->Login("s", "e", "p") ? w->get_auth_token() : "no"; std::unique_ptr<kmlconvenience::GoogleMapsData> g(kmlconvenience::GoogleMapsData::Create(w)); kmldom::AtomFeedPtr f = g->GetFeatureFeedByUri(W(v, "u1", "u2")); Y(); kmldom::DocumentPtr d = g->CreateDocumentOfMapFeatures(f); o += show(f) + show(d); string a; g->AddFeature("p", d->get_feature_array_at(0), &a); return o + a; }
struct Op { const char* name; string (*fn)(int); };
static const vector<Op> ops = {
  {"parse", op_parse}, {"observe", op_observe}, {"bad", op_bad}, {"unknown", op_unknown}, {"old", op_old}, {"ns", op_ns}, {"file", op_file}, {"stream", op_stream}, {"expat", op_expat},
  {"kmz", op_kmz}, {"zip", op_zip}, {"write", op_write}, {"rw", op_rw}, {"csv", op_csv}, {"split", op_split}, {"uri", op_uri}, {"time", op_time}, {"color", op_color}, {"attrs", op_attrs},
  {"balloon", op_balloon}, {"style", op_style}, {"inline", op_inline}, {"update", op_update}, {"links", op_links}, {"bounds", op_bounds}, {"clone", op_clone}, {"cache", op_cache}, {"region", op_region}, {"xsd", op_xsd}, {"geo", op_geo}, {"dom", op_dom}, {"gpx", op_gpx}, {"esc", op_esc}, {"vals", op_vals}, {"web", op_web}};
static string name_of(int k) { return string(ops[k / 2].name) + (k % 2 ? "'" : ""); }
static string run_op(int k) { return ops[k / 2].fn(k % 2); }
static int NOP() { return 2 * (int)ops.size(); }

// ---- coverage edges (only the library is instrumented)
static uint32_t g_edges; static uint32_t* g_count; static vector<uint32_t>* g_order;
static int g_guard_depth;
enum Mode { OFF, RECORD, PREEMPT };
static volatile int g_mode; static uint32_t g_target, g_when; static void (*g_hit)();
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a == b || *a) return; for (; a < b; ++a) *a = ++g_edges; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (g_mode == OFF || g_task != 0) return;
  if (g_mode == RECORD) { if (g_guard_depth) return; if (g_count[*g]++ == 0) { uint32_t n = g_count[0]++; g_count[g_edges + 2 + n] = *g; } return; }
  if (*g != g_target || g_guard_depth) return;
  if (++g_when == 0) { g_mode = OFF; g_hit(); }
}
// Another thread would wait for the initialization of a function's static, so
// nothing is preempted in the middle of one.
extern "C" int __cxa_guard_acquire(uint64_t* g) { if (*(char*)g) return 0; ++g_guard_depth; return 1; }
extern "C" void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; --g_guard_depth; }
extern "C" void __cxa_guard_abort(uint64_t* g) { --g_guard_depth; }
extern "C" const char* __asan_default_options() { return "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"; }

// ---- running in a child
struct Out { char* p; size_t cap; } g_out;
static void put(const string& s) { uint32_t n = s.size(); uint32_t at; memcpy(&at, g_out.p, 4); if (at + 8 + n > g_out.cap) _exit(9); memcpy(g_out.p + at, &n, 4); memcpy(g_out.p + at + 4, s.data(), n); at += 4 + n; memcpy(g_out.p, &at, 4); }
static bool child(const std::function<void()>& body, vector<string>* res, string* how) {
  uint32_t at = 4; memcpy(g_out.p, &at, 4); fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) { alarm(30); signal(SIGPROF, SIG_IGN); body(); _exit(0); }
  int st; while (waitpid(pid, &st, 0) < 0) {}
  res->clear(); uint32_t end; memcpy(&end, g_out.p, 4); for (at = 4; at < end;) { uint32_t n; memcpy(&n, g_out.p + at, 4); res->push_back(string(g_out.p + at + 4, n)); at += 4 + n; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
  *how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does not finish" : "signal " + mc::str(WTERMSIG(st))) : "exit " + mc::str(WEXITSTATUS(st)); return false;
}
static vector<string>& alone(int k) {   // what the operation yields in a pristine process
  static std::map<int, vector<string>> m; auto i = m.find(k); if (i != m.end()) return i->second;
  string how; vector<string> r; if (!child([k] { put(run_op(k)); }, &r, &how) || r.size() != 1) r = {"(fails alone: " + how + ")"};
  return m[k] = r;
}
static string diff(const string& a, const string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t f = i > 30 ? i - 30 : 0; return "alone [.." + esc(a.substr(f, 120)) + "] here [.." + esc(b.substr(f, 120)) + "]"; }
static void judge(Run& r, const vector<int>& which, const std::function<void()>& body, const string& sig, const string& what) {
  vector<string> want; for (int k : which) { want.push_back(alone(k)[0]); r.check(want.back().compare(0, 7, "(fails ") != 0, "conc:fails-alone", name_of(k) + want.back()); }
  vector<string> got; string how; r.nontrivial(); r.step((int)which.size());
  r.check(child(body, &got, &how), sig + ":crash", what + " " + how);
  r.check(got.size() == want.size(), sig + ":missing", what);
  for (size_t i = 0; i < want.size(); ++i) r.check(want[i] == got[i], sig + ":" + ops[which[i] / 2].name, name_of(which[i]) + " in " + what + " " + diff(want[i], got[i]));
}
// (a) one after another
static void hist(Run& r, int n) {
  vector<int> w; string what; for (int i = 0; i < n; ++i) { w.push_back(r.pick(NOP())); what += name_of(w.back()) + " "; }
  r.say(what); r.state(what); judge(r, w, [w] { for (int k : w) put(run_op(k)); }, "history", what);
}
// each operation three times with every other one between
static void repeat(Run& r) { int a = r.pick(NOP()); vector<int> w; for (int k = 0; k < NOP(); ++k) { w.push_back(a); w.push_back(k); } r.say(name_of(a)); judge(r, w, [w] { for (int k : w) put(run_op(k)); }, "history", "all others around " + name_of(a)); }
// (b) nested in the callbacks of another
static int g_at, g_inner; static string* g_inner_out;
static void nest_yield() { if (g_at-- != 0) return; YieldFn y = on_yield; on_yield = NULL; int t = g_task; g_task = 7; *g_inner_out = run_op(g_inner); g_task = t; on_yield = y; }
static int g_y; static void count_yield() { ++g_y; }
static int yields(int k) { static std::map<int, int> m; auto i = m.find(k); if (i != m.end()) return i->second; vector<string> r; string how; child([k] { on_yield = count_yield; run_op(k); put(mc::str(g_y)); }, &r, &how); return m[k] = r.empty() ? 0 : atoi(r[0].c_str()); }
static void nested(Run& r) {
  int a = r.pick(NOP()); int n = std::min(yields(a), thorough ? 60 : 8); if (!n) r.prune(); int b = r.pick(NOP()), at = r.pick(n);
  string what = name_of(b) + " inside " + name_of(a) + " at " + mc::str(at); r.say(what); r.state(what);
  judge(r, {a, b}, [=] { string in; g_at = at; g_inner = b; g_inner_out = &in; on_yield = nest_yield; string o = run_op(a); put(o); put(in); }, "nested", what);
}
// (c) interleaved: tasks are threads, exactly one of which runs at a time
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
struct Task { int op, left; bool done; string out; }; static vector<Task> tasks; static vector<int> sched; static size_t sched_at; static int turn;
static void next_turn() { // mu held
  while (sched_at < sched.size() && tasks[sched[sched_at]].done) ++sched_at;
  if (sched_at < sched.size()) turn = sched[sched_at++];
  else { turn = -1; for (size_t i = 0; i < tasks.size(); ++i) if (!tasks[i].done) { turn = (int)i; break; } }
  pthread_cond_broadcast(&cv);
}
static void sched_yield_() { Task& t = tasks[g_task]; if (t.left <= 0) return; --t.left; pthread_mutex_lock(&mu); next_turn(); while (turn != g_task) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
static void* task_main(void* p) {
  g_task = (int)(intptr_t)p; pthread_mutex_lock(&mu); while (turn != g_task) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu);
  string o = run_op(tasks[g_task].op);
  pthread_mutex_lock(&mu); tasks[g_task].out = o; tasks[g_task].done = true; next_turn(); pthread_mutex_unlock(&mu); return NULL;
}
static void interleave(Run& r, int n, int steps) {
  vector<int> w, len; for (int i = 0; i < n; ++i) { int k = r.pick(NOP()); if (i && k < w.back()) r.prune(); if (yields(k) < 1) r.prune(); w.push_back(k); }
  if (n == 2 && w[0] / 2 == w[1] / 2) steps += 2;
  for (int k : w) len.push_back(std::min(yields(k), steps - 1) + 1);
  vector<int> s, left = len; string what; for (int k : w) what += name_of(k) + " "; what += "@";
  for (;;) { vector<int> can; for (int i = 0; i < n; ++i) if (left[i]) can.push_back(i); if (can.empty()) break; int c = can.size() > 1 ? can[r.pick((int)can.size())] : can[0]; --left[c]; s.push_back(c); what += mc::str(c); }
  r.say(what); r.step((int)s.size()); r.state(what);
  judge(r, w, [=] {
    tasks.clear(); for (int i = 0; i < n; ++i) tasks.push_back({w[i], len[i] - 1, false, ""}); sched = s; sched_at = 0; turn = -1; on_yield = sched_yield_;
    vector<pthread_t> t(n); for (int i = 0; i < n; ++i) pthread_create(&t[i], NULL, task_main, (void*)(intptr_t)i);
    pthread_mutex_lock(&mu); next_turn(); pthread_mutex_unlock(&mu); for (auto& x : t) pthread_join(x, NULL);
    for (auto& x : tasks) put(x.out); }, "interleaved", what);
}
// (d) preempted at a coverage edge of the library
static volatile bool b_go, b_done; static int b_op; static string b_out;
static void* b_main(void*) { g_task = 1; pthread_mutex_lock(&mu); while (!b_go) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); string o = run_op(b_op); pthread_mutex_lock(&mu); b_out = o; b_done = true; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); return NULL; }
static void let_b_run() { pthread_mutex_lock(&mu); b_go = true; pthread_cond_broadcast(&cv); struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 4; while (!b_done) if (pthread_cond_timedwait(&cv, &mu, &t)) break; pthread_mutex_unlock(&mu); }
static const vector<std::pair<uint32_t, uint32_t>>& edges(int k) {   // distinct edges of an operation with their counts
  static std::map<int, vector<std::pair<uint32_t, uint32_t>>> m; auto i = m.find(k); if (i != m.end()) return i->second;
  memset(g_count, 0, 4 * (2 * (size_t)g_edges + 8)); vector<string> r; string how; child([k] { g_mode = RECORD; run_op(k); g_mode = OFF; }, &r, &how);
  vector<std::pair<uint32_t, uint32_t>> v; uint32_t n = g_count[0]; for (uint32_t j = 0; j < n; ++j) { uint32_t e = g_count[g_edges + 2 + j]; v.push_back({e, g_count[e]}); }
  return m[k] = v;
}
static void preempt(Run& r, bool others) {
  int a = r.pick(NOP()), b = a ^ 1; if (others) { b = r.pick(NOP()); if (b / 2 == a / 2) r.prune(); }
  const auto& e = edges(a); if (e.empty()) r.prune(); int j = r.pick((int)e.size()); bool last = r.flip(); uint32_t nth = last ? e[j].second : 1; if (last && nth == 1) r.prune();
  string what = name_of(a) + " stopped at edge " + mc::str(j) + " (occurrence " + mc::str(nth) + ") for " + name_of(b); r.say(what); r.step(2); r.state_hash(fnv(what.data(), what.size()));
  judge(r, {a, b}, [=] {
    b_op = b; b_go = b_done = false; pthread_t t; pthread_create(&t, NULL, b_main, NULL);
    g_target = e[j].first; g_when = (uint32_t)-(int)nth; g_hit = let_b_run; g_mode = PREEMPT; string o = run_op(a); g_mode = OFF;
    let_b_run(); pthread_join(t, NULL); put(o); put(b_out); }, "preempted", what);
}
void mc_setup() {
  g_out.cap = 64 << 20; g_out.p = (char*)mmap(0, g_out.cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_count = (uint32_t*)mmap(0, 4 * (2 * (size_t)g_edges + 8), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rule("each execution starts in a pristine forked process and runs a sequence, nesting or interleaving of 2-3 of 70 operations (35 kinds, 2 data sets); every operation must yield exactly what it yields alone. Preemption points: every callback and step (interleaved), and the first and last occurrence of every instrumented control-flow edge of the library (preempted).");
  assume("one thread runs at a time: data races below the granularity of control-flow edges are not explored");
  add("repeat", repeat, BOTH, 1); add("pairs", [](Run& r) { hist(r, 2); }, BOTH, 2); add("triples", [](Run& r) { hist(r, 3); }, THOROUGH, 2);
  add("nested", nested, BOTH, 2);
  add("interleave2", [](Run& r) { interleave(r, 2, thorough ? 5 : 3); }, BOTH, 2); add("interleave3", [](Run& r) { interleave(r, 3, 2); }, THOROUGH, 3);
  add("preempt", [](Run& r) { preempt(r, false); }, BOTH, 2); add("preempt-others", [](Run& r) { preempt(r, true); }, THOROUGH, 3);
}
