#include "schema.h"
namespace sch {
#define P(C) static_cast<kmldom::C*>(e)
#define SCALAR_(C, A, X, K, DEF, EN, TOV, FROMV) { Field z; z.api = #A; z.xml = X; z.kind = K; z.def = DEF; z.enums = EN; \
  z.set = [](Element* e, const string& v) { P(C)->set_##A(TOV); }; \
  z.has = [](Element* e) { return P(C)->has_##A(); }; \
  z.get = [](Element* e) { auto g = P(C)->get_##A(); return FROMV; }; \
  z.clear = [](Element* e) { P(C)->clear_##A(); }; c.f.push_back(z); }
#define STR_(C, A, X) SCALAR_(C, A, X, STR, "", V(), v, string(g))
#define ASTR_(C, A, X) SCALAR_(C, A, X, ASTR, "", V(), v, string(g))
#define BOOL_(C, A, X, D) SCALAR_(C, A, X, BOOL, D, V(), tb(v), cs(g))
#define DBL_(C, A, X, D) SCALAR_(C, A, X, DBL, D, V(), td(v), cd(g))
#define INT_(C, A, X, D) SCALAR_(C, A, X, INT, D, V(), ti(v), mc::str(g))
#define AINT_(C, A, X, D) SCALAR_(C, A, X, AINT, D, V(), ti(v), mc::str(g))
#define ADBL_(C, A, X, D) SCALAR_(C, A, X, ADBL, D, V(), td(v), cd(g))
#define ENUM_(C, A, X) SCALAR_(C, A, X, ENUM, "0", en(X), ti(v), mc::str(g))
#define AENUM_(C, A, X, EN) SCALAR_(C, A, X, AENUM, "0", en(EN), ti(v), mc::str(g))
#define COL_(C, A, X, D) SCALAR_(C, A, X, COLOR, D, V(), kmlbase::Color32((uint32_t)strtoul(v.c_str(), 0, 16)), [&]{ char b[16]; snprintf(b, 16, "%08x", (unsigned)g.get_color_abgr()); return string(b); }())
#define TEXT_(C, A) SCALAR_(C, A, "", TEXT, "", V(), v, string(g))
#define CHILD_(C, A, T, ...) { Field z; z.api = #A; z.kind = CHILD; z.accept = V __VA_ARGS__; \
  z.setc = [](Element* e, const ElementPtr& x) { P(C)->set_##A(static_cast<kmldom::T*>(x.get())); return P(C)->get_##A().get() == x.get(); }; \
  z.has = [](Element* e) { return P(C)->has_##A(); }; \
  z.getc = [](Element* e) -> ElementPtr { return P(C)->get_##A(); }; \
  z.clear = [](Element* e) { P(C)->clear_##A(); }; c.f.push_back(z); }
#define LIST_(C, A, T, ...) { Field z; z.api = #A; z.kind = LIST; z.accept = V __VA_ARGS__; \
  z.setc = [](Element* e, const ElementPtr& x) { size_t n = P(C)->get_##A##_array_size(); P(C)->add_##A(static_cast<kmldom::T*>(x.get())); return P(C)->get_##A##_array_size() == n + 1 && P(C)->get_##A##_array_at(n).get() == x.get(); }; \
  z.size = [](Element* e) { return P(C)->get_##A##_array_size(); }; \
  z.at = [](Element* e, size_t i) -> ElementPtr { return P(C)->get_##A##_array_at(i); }; c.f.push_back(z); }
#define SL_(C, A, X, K, EN, TOV, FROMV) { Field z; z.api = #A; z.xml = X; z.kind = K; z.enums = EN; \
  z.set = [](Element* e, const string& v) { P(C)->add_##A(TOV); }; \
  z.size = [](Element* e) { return (size_t)P(C)->get_##A##_array_size(); }; \
  z.sat = [](Element* e, size_t i) { auto g = P(C)->get_##A##_array_at(i); return FROMV; }; c.f.push_back(z); }
namespace ty { using namespace kmldom;
enum { Type_Kml = kmldom::Type_kml, Type_HotSpot = kmldom::Type_hotSpot, Type_OverlayXY = kmldom::Type_overlayXY, Type_ScreenXY = kmldom::Type_screenXY,
       Type_RotationXY = kmldom::Type_rotationXY, Type_Size = kmldom::Type_size, Type_Coordinates = kmldom::Type_coordinates,
       Type_OuterBoundaryIs = kmldom::Type_outerBoundaryIs, Type_InnerBoundaryIs = kmldom::Type_innerBoundaryIs, Type_LinkSnippet = kmldom::Type_linkSnippet }; }
vector<Class> build() {
  vector<Class> out;
  V FEATURE = {"Document", "Folder", "Placemark", "NetworkLink", "GroundOverlay", "ScreenOverlay", "PhotoOverlay", "gx:Tour"};
  V GEOM = {"Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model", "gx:Track", "gx:MultiTrack"};
  V VIEW = {"LookAt", "Camera"}, TIME = {"TimeSpan", "TimeStamp"}, GXTIME = {"gx:TimeSpan", "gx:TimeStamp"}, STYLE = {"Style", "StyleMap"};
  V TOURP = {"gx:AnimatedUpdate", "gx:FlyTo", "gx:Wait", "gx:SoundCue", "gx:TourControl"};
  V ANYOBJ = {"Placemark", "Folder", "Document", "Style", "StyleMap", "Point", "LineString", "LookAt", "IconStyle", "LineStyle", "PolyStyle", "GroundOverlay", "Link", "Region", "TimeStamp", "Model"};
  auto object = [](Class& c) { ASTR_(Object, id, "id") ASTR_(Object, targetid, "targetId") };
  auto feature = [&](Class& c) { object(c);
    STR_(Feature, name, "name") BOOL_(Feature, visibility, "visibility", "1") BOOL_(Feature, open, "open", "0")
    CHILD_(Feature, atomauthor, AtomAuthor, {"atom:author"}) CHILD_(Feature, atomlink, AtomLink, {"atom:link"})
    STR_(Feature, address, "address") STR_(Feature, phonenumber, "phoneNumber")
    CHILD_(Feature, xaladdressdetails, XalAddressDetails, {"xal:AddressDetails"})
    CHILD_(Feature, snippet, Snippet, {"Snippet"}) STR_(Feature, description, "description")
    CHILD_(Feature, abstractview, AbstractView, (VIEW)) CHILD_(Feature, timeprimitive, TimePrimitive, (TIME))
    STR_(Feature, styleurl, "styleUrl")
    if (c.tag != "Document") CHILD_(Feature, styleselector, StyleSelector, (STYLE))
    CHILD_(Feature, region, Region, {"Region"}) CHILD_(Feature, extendeddata, ExtendedData, {"ExtendedData"})
    BOOL_(Feature, gx_balloonvisibility, "gx:balloonVisibility", "0") };
  auto overlay = [&](Class& c) { feature(c);
    COL_(Overlay, color, "color", "ffffffff") INT_(Overlay, draworder, "drawOrder", "0") CHILD_(Overlay, icon, Icon, {"Icon"}) };
  auto altmode = [&](Class& c) { object(c);
    ENUM_(AltitudeGeometryCommon, altitudemode, "altitudeMode") ENUM_(AltitudeGeometryCommon, gx_altitudemode, "gx:altitudeMode") };
  auto extr = [&](Class& c) { altmode(c); BOOL_(ExtrudeGeometryCommon, extrude, "extrude", "0") };
  auto coordg = [&](Class& c) { extr(c); CHILD_(CoordinatesGeometryCommon, coordinates, Coordinates, {"coordinates"}) };
  auto line = [&](Class& c) { coordg(c); BOOL_(LineCommon, tessellate, "tessellate", "0") };
  auto link = [&](Class& c) { object(c); STR_(BasicLink, href, "href")
    ENUM_(AbstractLink, refreshmode, "refreshMode") DBL_(AbstractLink, refreshinterval, "refreshInterval", "4")
    ENUM_(AbstractLink, viewrefreshmode, "viewRefreshMode") DBL_(AbstractLink, viewrefreshtime, "viewRefreshTime", "4")
    DBL_(AbstractLink, viewboundscale, "viewBoundScale", "1") STR_(AbstractLink, viewformat, "viewFormat") STR_(AbstractLink, httpquery, "httpQuery") };
  auto cstyle = [&](Class& c) { object(c); COL_(ColorStyle, color, "color", "ffffffff") ENUM_(ColorStyle, colormode, "colorMode") };
  auto vec2 = [&](Class& c) { ADBL_(Vec2, x, "x", "1") ADBL_(Vec2, y, "y", "1") AENUM_(Vec2, xunits, "xunits", "units") AENUM_(Vec2, yunits, "yunits", "units") };
  auto view = [&](Class& c) { object(c); CHILD_(AbstractView, gx_timeprimitive, TimePrimitive, (GXTIME))
    DBL_(AbstractViewCommon, longitude, "longitude", "0") DBL_(AbstractViewCommon, latitude, "latitude", "0") DBL_(AbstractViewCommon, altitude, "altitude", "0")
    DBL_(AbstractViewCommon, heading, "heading", "0") DBL_(AbstractViewCommon, tilt, "tilt", "0")
    ENUM_(AbstractViewCommon, altitudemode, "altitudeMode") ENUM_(AbstractViewCommon, gx_altitudemode, "gx:altitudeMode") };
  auto llbox = [&](Class& c) { object(c); DBL_(AbstractLatLonBox, north, "north", "180") DBL_(AbstractLatLonBox, south, "south", "-180")
    DBL_(AbstractLatLonBox, east, "east", "180") DBL_(AbstractLatLonBox, west, "west", "-180") };
  auto atomc = [&](Class& c) { STR_(AtomCommon, id, "atom:id") STR_(AtomCommon, title, "atom:title") STR_(AtomCommon, updated, "atom:updated")
    LIST_(AtomCommon, category, AtomCategory, {"atom:category"}) LIST_(AtomCommon, link, AtomLink, {"atom:link"}) };
  auto snip = [&](Class& c) { TEXT_(SnippetCommon, text) AINT_(SnippetCommon, maxlines, "maxLines", "2") };
  auto tourp = [&](Class& c) { object(c); DBL_(GxTourPrimitiveCommon, gx_duration, "gx:duration", "0") };
#define CLASS(N, TAG, ...) { Class c; c.cls = #N; c.tag = TAG; c.isa = V __VA_ARGS__; c.type = ty::Type_##N; \
  c.make = []() -> ElementPtr { return kmldom::KmlFactory::GetFactory()->Create##N(); };
#define END out.push_back(c); }
  CLASS(Kml, "kml", {}) ASTR_(Kml, hint, "hint") CHILD_(Kml, networklinkcontrol, NetworkLinkControl, {"NetworkLinkControl"}) CHILD_(Kml, feature, Feature, (FEATURE)) END
  CLASS(Document, "Document", {"Object","Feature","Container"}) feature(c); LIST_(Document, styleselector, StyleSelector, (STYLE)) LIST_(Document, schema, Schema, {"Schema"}) LIST_(Container, feature, Feature, (FEATURE)) END
  CLASS(Folder, "Folder", {"Object","Feature","Container"}) feature(c); LIST_(Container, feature, Feature, (FEATURE)) END
  CLASS(Placemark, "Placemark", {"Object","Feature"}) feature(c); CHILD_(Placemark, geometry, Geometry, (GEOM)) END
  CLASS(NetworkLink, "NetworkLink", {"Object","Feature"}) feature(c); BOOL_(NetworkLink, refreshvisibility, "refreshVisibility", "0") BOOL_(NetworkLink, flytoview, "flyToView", "0") CHILD_(NetworkLink, link, Link, {"Link", "Url"}) END
  CLASS(GroundOverlay, "GroundOverlay", {"Object","Feature","Overlay"}) overlay(c); DBL_(GroundOverlay, altitude, "altitude", "0")
    ENUM_(GroundOverlay, altitudemode, "altitudeMode") ENUM_(GroundOverlay, gx_altitudemode, "gx:altitudeMode") CHILD_(GroundOverlay, latlonbox, LatLonBox, {"LatLonBox"}) CHILD_(GroundOverlay, gx_latlonquad, GxLatLonQuad, {"gx:LatLonQuad"}) END
  CLASS(ScreenOverlay, "ScreenOverlay", {"Object","Feature","Overlay"}) overlay(c); CHILD_(ScreenOverlay, overlayxy, OverlayXY, {"overlayXY"}) CHILD_(ScreenOverlay, screenxy, ScreenXY, {"screenXY"})
    CHILD_(ScreenOverlay, rotationxy, RotationXY, {"rotationXY"}) CHILD_(ScreenOverlay, size, Size, {"size"}) DBL_(ScreenOverlay, rotation, "rotation", "0") END
  CLASS(PhotoOverlay, "PhotoOverlay", {"Object","Feature","Overlay"}) overlay(c); DBL_(PhotoOverlay, rotation, "rotation", "0") CHILD_(PhotoOverlay, viewvolume, ViewVolume, {"ViewVolume"})
    CHILD_(PhotoOverlay, imagepyramid, ImagePyramid, {"ImagePyramid"}) CHILD_(PhotoOverlay, point, Point, {"Point"}) ENUM_(PhotoOverlay, shape, "shape") END
  CLASS(GxTour, "gx:Tour", {"Object","Feature"}) feature(c); CHILD_(GxTour, gx_playlist, GxPlaylist, {"gx:Playlist"}) END
  CLASS(GxPlaylist, "gx:Playlist", {"Object"}) object(c); LIST_(GxPlaylist, gx_tourprimitive, GxTourPrimitive, (TOURP)) END
  CLASS(GxAnimatedUpdate, "gx:AnimatedUpdate", {"Object","GxTourPrimitive"}) tourp(c); CHILD_(GxAnimatedUpdate, update, Update, {"Update"}) END
  CLASS(GxFlyTo, "gx:FlyTo", {"Object","GxTourPrimitive"}) tourp(c); ENUM_(GxFlyTo, gx_flytomode, "gx:flyToMode") CHILD_(GxFlyTo, abstractview, AbstractView, (VIEW)) END
  CLASS(GxWait, "gx:Wait", {"Object","GxTourPrimitive"}) tourp(c); END
  CLASS(GxSoundCue, "gx:SoundCue", {"Object","GxTourPrimitive"}) object(c); STR_(GxSoundCue, href, "href") END
  CLASS(GxTourControl, "gx:TourControl", {"Object","GxTourPrimitive"}) object(c); ENUM_(GxTourControl, gx_playmode, "gx:playMode") END
  CLASS(Point, "Point", {"Object","Geometry"}) coordg(c); END
  CLASS(LineString, "LineString", {"Object","Geometry"}) line(c); END
  CLASS(LinearRing, "LinearRing", {"Object","Geometry"}) line(c); END
  CLASS(Polygon, "Polygon", {"Object","Geometry"}) extr(c); BOOL_(Polygon, tessellate, "tessellate", "0") CHILD_(Polygon, outerboundaryis, OuterBoundaryIs, {"outerBoundaryIs"}) LIST_(Polygon, innerboundaryis, InnerBoundaryIs, {"innerBoundaryIs"}) END
  CLASS(OuterBoundaryIs, "outerBoundaryIs", {}) CHILD_(BoundaryCommon, linearring, LinearRing, {"LinearRing"}) END
  CLASS(InnerBoundaryIs, "innerBoundaryIs", {}) CHILD_(BoundaryCommon, linearring, LinearRing, {"LinearRing"}) END
  CLASS(MultiGeometry, "MultiGeometry", {"Object","Geometry"}) object(c); LIST_(MultiGeometry, geometry, Geometry, (GEOM)) END
  CLASS(Model, "Model", {"Object","Geometry"}) altmode(c); CHILD_(Model, location, Location, {"Location"}) CHILD_(Model, orientation, Orientation, {"Orientation"}) CHILD_(Model, scale, Scale, {"Scale"}) CHILD_(Model, link, Link, {"Link"}) CHILD_(Model, resourcemap, ResourceMap, {"ResourceMap"}) END
  CLASS(GxTrack, "gx:Track", {"Object","Geometry"}) altmode(c); SL_(GxTrack, when, "when", SLIST, V(), v, string(g)) SL_(GxTrack, gx_coord, "gx:coord", VLIST, V(), tv(v), vs(g)) SL_(GxTrack, gx_angles, "gx:angles", VLIST, V(), tv(v), vs(g))
    CHILD_(GxTrack, model, Model, {"Model"}) CHILD_(GxTrack, extendeddata, ExtendedData, {"ExtendedData"}) END
  CLASS(GxMultiTrack, "gx:MultiTrack", {"Object","Geometry"}) object(c); BOOL_(GxMultiTrack, gx_interpolate, "gx:interpolate", "0") LIST_(GxMultiTrack, gx_track, GxTrack, {"gx:Track"}) END
  CLASS(Coordinates, "coordinates", {}) { Field z; z.api = "coordinates"; z.kind = VLIST; z.xml = "";
    z.set = [](Element* e, const string& v) { P(Coordinates)->add_vec3(tv(v)); };
    z.size = [](Element* e) { return (size_t)P(Coordinates)->get_coordinates_array_size(); };
    z.sat = [](Element* e, size_t i) { return vs(P(Coordinates)->get_coordinates_array_at(i)); };
    c.f.push_back(z); } END
  CLASS(Location, "Location", {"Object"}) object(c); DBL_(Location, longitude, "longitude", "0") DBL_(Location, latitude, "latitude", "0") DBL_(Location, altitude, "altitude", "0") END
  CLASS(Orientation, "Orientation", {"Object"}) object(c); DBL_(Orientation, heading, "heading", "0") DBL_(Orientation, tilt, "tilt", "0") DBL_(Orientation, roll, "roll", "0") END
  CLASS(Scale, "Scale", {"Object"}) object(c); DBL_(Scale, x, "x", "1") DBL_(Scale, y, "y", "1") DBL_(Scale, z, "z", "1") END
  CLASS(Alias, "Alias", {"Object"}) object(c); STR_(Alias, targethref, "targetHref") STR_(Alias, sourcehref, "sourceHref") END
  CLASS(ResourceMap, "ResourceMap", {"Object"}) object(c); LIST_(ResourceMap, alias, Alias, {"Alias"}) END
  CLASS(LookAt, "LookAt", {"Object","AbstractView"}) view(c); DBL_(LookAt, range, "range", "0") END
  CLASS(Camera, "Camera", {"Object","AbstractView"}) view(c); DBL_(Camera, roll, "roll", "0") END
  CLASS(TimeSpan, "TimeSpan", {"Object","TimePrimitive"}) object(c); STR_(TimeSpan, begin, "begin") STR_(TimeSpan, end, "end") END
  CLASS(TimeStamp, "TimeStamp", {"Object","TimePrimitive"}) object(c); STR_(TimeStamp, when, "when") END
  CLASS(GxTimeSpan, "gx:TimeSpan", {"Object","TimePrimitive","TimeSpan"}) object(c); STR_(TimeSpan, begin, "begin") STR_(TimeSpan, end, "end") END
  CLASS(GxTimeStamp, "gx:TimeStamp", {"Object","TimePrimitive","TimeStamp"}) object(c); STR_(TimeStamp, when, "when") END
  CLASS(Region, "Region", {"Object"}) object(c); CHILD_(Region, latlonaltbox, LatLonAltBox, {"LatLonAltBox"}) CHILD_(Region, lod, Lod, {"Lod"}) END
  CLASS(LatLonAltBox, "LatLonAltBox", {"Object","AbstractLatLonBox"}) llbox(c); DBL_(LatLonAltBox, minaltitude, "minAltitude", "0") DBL_(LatLonAltBox, maxaltitude, "maxAltitude", "0") ENUM_(LatLonAltBox, altitudemode, "altitudeMode") ENUM_(LatLonAltBox, gx_altitudemode, "gx:altitudeMode") END
  CLASS(Lod, "Lod", {"Object"}) object(c); DBL_(Lod, minlodpixels, "minLodPixels", "0") DBL_(Lod, maxlodpixels, "maxLodPixels", "-1") DBL_(Lod, minfadeextent, "minFadeExtent", "0") DBL_(Lod, maxfadeextent, "maxFadeExtent", "0") END
  CLASS(LatLonBox, "LatLonBox", {"Object","AbstractLatLonBox"}) llbox(c); DBL_(LatLonBox, rotation, "rotation", "0") END
  CLASS(GxLatLonQuad, "gx:LatLonQuad", {"Object"}) object(c); CHILD_(GxLatLonQuad, coordinates, Coordinates, {"coordinates"}) END
  CLASS(OverlayXY, "overlayXY", {}) vec2(c); END
  CLASS(ScreenXY, "screenXY", {}) vec2(c); END
  CLASS(RotationXY, "rotationXY", {}) vec2(c); END
  CLASS(Size, "size", {}) vec2(c); END
  CLASS(HotSpot, "hotSpot", {}) vec2(c); END
  CLASS(ViewVolume, "ViewVolume", {"Object"}) object(c); DBL_(ViewVolume, leftfov, "leftFov", "0") DBL_(ViewVolume, rightfov, "rightFov", "0") DBL_(ViewVolume, bottomfov, "bottomFov", "0") DBL_(ViewVolume, topfov, "topFov", "0") DBL_(ViewVolume, near, "near", "0") END
  CLASS(ImagePyramid, "ImagePyramid", {"Object"}) object(c); INT_(ImagePyramid, tilesize, "tileSize", "256") INT_(ImagePyramid, maxwidth, "maxWidth", "0") INT_(ImagePyramid, maxheight, "maxHeight", "0") ENUM_(ImagePyramid, gridorigin, "gridOrigin") END
  CLASS(Link, "Link", {"Object","BasicLink"}) link(c); END
  CLASS(Icon, "Icon", {"Object","BasicLink"}) link(c); END
  CLASS(Url, "Url", {"Object","BasicLink"}) link(c); END
  CLASS(IconStyleIcon, "Icon", {"Object","BasicLink"}) object(c); STR_(BasicLink, href, "href") DBL_(IconStyleIcon, gx_x, "gx:x", "0") DBL_(IconStyleIcon, gx_y, "gx:y", "0") DBL_(IconStyleIcon, gx_w, "gx:w", "0") DBL_(IconStyleIcon, gx_h, "gx:h", "0") END
  CLASS(Style, "Style", {"Object","StyleSelector"}) object(c); CHILD_(Style, iconstyle, IconStyle, {"IconStyle"}) CHILD_(Style, labelstyle, LabelStyle, {"LabelStyle"}) CHILD_(Style, linestyle, LineStyle, {"LineStyle"})
    CHILD_(Style, polystyle, PolyStyle, {"PolyStyle"}) CHILD_(Style, balloonstyle, BalloonStyle, {"BalloonStyle"}) CHILD_(Style, liststyle, ListStyle, {"ListStyle"}) END
  CLASS(StyleMap, "StyleMap", {"Object","StyleSelector"}) object(c); LIST_(StyleMap, pair, Pair, {"Pair"}) END
  CLASS(Pair, "Pair", {"Object"}) object(c); ENUM_(Pair, key, "key") STR_(Pair, styleurl, "styleUrl") CHILD_(Pair, styleselector, StyleSelector, (STYLE)) END
  CLASS(IconStyle, "IconStyle", {"Object","SubStyle","ColorStyle"}) cstyle(c); DBL_(IconStyle, scale, "scale", "1") DBL_(IconStyle, heading, "heading", "0") CHILD_(IconStyle, icon, IconStyleIcon, {"IconStyleIcon"}) CHILD_(IconStyle, hotspot, HotSpot, {"hotSpot"}) END
  CLASS(LabelStyle, "LabelStyle", {"Object","SubStyle","ColorStyle"}) cstyle(c); DBL_(LabelStyle, scale, "scale", "1") END
  CLASS(LineStyle, "LineStyle", {"Object","SubStyle","ColorStyle"}) cstyle(c); DBL_(LineStyle, width, "width", "1") END
  CLASS(PolyStyle, "PolyStyle", {"Object","SubStyle","ColorStyle"}) cstyle(c); BOOL_(PolyStyle, fill, "fill", "1") BOOL_(PolyStyle, outline, "outline", "1") END
  CLASS(BalloonStyle, "BalloonStyle", {"Object","SubStyle"}) object(c); COL_(BalloonStyle, bgcolor, "bgColor", "ffffffff") COL_(BalloonStyle, textcolor, "textColor", "ff000000") STR_(BalloonStyle, text, "text") ENUM_(BalloonStyle, displaymode, "displayMode") END
  CLASS(ListStyle, "ListStyle", {"Object","SubStyle"}) object(c); ENUM_(ListStyle, listitemtype, "listItemType") COL_(ListStyle, bgcolor, "bgColor", "ffffffff") LIST_(ListStyle, itemicon, ItemIcon, {"ItemIcon"}) INT_(ListStyle, maxsnippetlines, "maxSnippetLines", "2") END
  CLASS(ItemIcon, "ItemIcon", {"Object"}) object(c); { Field z; z.api = "state"; z.xml = "state"; z.kind = ELIST; z.enums = en("state");
    // A new ItemIcon holds its default state until the first explicit one.
    z.set = [](Element* e, const string& v) { if (!P(ItemIcon)->has_state()) P(ItemIcon)->clear_state(); P(ItemIcon)->add_state(ti(v)); };
    z.size = [](Element* e) { return P(ItemIcon)->has_state() ? P(ItemIcon)->get_state_array_size() : 0; };
    z.sat = [](Element* e, size_t i) { return mc::str(P(ItemIcon)->get_state_array_at(i)); };
    z.clear = [](Element* e) { P(ItemIcon)->clear_state(); }; c.f.push_back(z); } STR_(ItemIcon, href, "href") END
  CLASS(ExtendedData, "ExtendedData", {}) LIST_(ExtendedData, data, Data, {"Data"}) LIST_(ExtendedData, schemadata, SchemaData, {"SchemaData"}) END
  CLASS(Data, "Data", {"Object"}) object(c); ASTR_(Data, name, "name") STR_(Data, displayname, "displayName") STR_(Data, value, "value") END
  CLASS(SchemaData, "SchemaData", {"Object"}) object(c); ASTR_(SchemaData, schemaurl, "schemaUrl") LIST_(SchemaData, simpledata, SimpleData, {"SimpleData"}) LIST_(SchemaData, gx_simplearraydata, GxSimpleArrayData, {"gx:SimpleArrayData"}) END
  CLASS(SimpleData, "SimpleData", {}) ASTR_(SimpleData, name, "name") TEXT_(SimpleData, text) END
  CLASS(GxSimpleArrayData, "gx:SimpleArrayData", {}) ASTR_(GxSimpleArrayData, name, "name") SL_(GxSimpleArrayData, gx_value, "gx:value", SLIST, V(), v, string(g)) END
  CLASS(Metadata, "Metadata", {}) END
  CLASS(Schema, "Schema", {"Object"}) object(c); ASTR_(Schema, name, "name") LIST_(Schema, simplefield, SimpleField, {"SimpleField"}) LIST_(Schema, gx_simplearrayfield, GxSimpleArrayField, {"gx:SimpleArrayField"}) END
  CLASS(SimpleField, "SimpleField", {}) ASTR_(SimpleField, type, "type") ASTR_(SimpleField, name, "name") STR_(SimpleField, displayname, "displayName") END
  CLASS(GxSimpleArrayField, "gx:SimpleArrayField", {"SimpleField"}) ASTR_(SimpleField, type, "type") ASTR_(SimpleField, name, "name") STR_(SimpleField, displayname, "displayName") END
  CLASS(Snippet, "Snippet", {}) snip(c); END
  CLASS(LinkSnippet, "linkSnippet", {}) snip(c); END
  CLASS(NetworkLinkControl, "NetworkLinkControl", {}) DBL_(NetworkLinkControl, minrefreshperiod, "minRefreshPeriod", "0") DBL_(NetworkLinkControl, maxsessionlength, "maxSessionLength", "0") STR_(NetworkLinkControl, cookie, "cookie") STR_(NetworkLinkControl, message, "message") STR_(NetworkLinkControl, linkname, "linkName") STR_(NetworkLinkControl, linkdescription, "linkDescription")
    CHILD_(NetworkLinkControl, linksnippet, LinkSnippet, {"linkSnippet"}) STR_(NetworkLinkControl, expires, "expires") CHILD_(NetworkLinkControl, update, Update, {"Update"}) CHILD_(NetworkLinkControl, abstractview, AbstractView, (VIEW)) END
  CLASS(Update, "Update", {}) STR_(Update, targethref, "targetHref") LIST_(Update, updateoperation, UpdateOperation, {"Create", "Delete", "Change"}) END
  CLASS(Create, "Create", {"UpdateOperation"}) LIST_(Create, container, Container, {"Document", "Folder"}) END
  CLASS(Delete, "Delete", {"UpdateOperation"}) LIST_(Delete, feature, Feature, (FEATURE)) END
  CLASS(Change, "Change", {"UpdateOperation"}) LIST_(Change, object, Object, (ANYOBJ)) END
  CLASS(AtomAuthor, "atom:author", {}) STR_(AtomAuthor, name, "atom:name") STR_(AtomAuthor, uri, "atom:uri") STR_(AtomAuthor, email, "atom:email") END
  CLASS(AtomLink, "atom:link", {}) ASTR_(AtomLink, href, "href") ASTR_(AtomLink, rel, "rel") ASTR_(AtomLink, type, "type") ASTR_(AtomLink, hreflang, "hreflang") ASTR_(AtomLink, title, "title") AINT_(AtomLink, length, "length", "0") END
  CLASS(AtomCategory, "atom:category", {}) ASTR_(AtomCategory, term, "term") ASTR_(AtomCategory, scheme, "scheme") ASTR_(AtomCategory, label, "label") END
  CLASS(AtomContent, "atom:content", {}) ASTR_(AtomContent, src, "src") ASTR_(AtomContent, type, "type") END
  CLASS(AtomEntry, "atom:entry", {"AtomCommon"}) atomc(c); STR_(AtomEntry, summary, "atom:summary") CHILD_(AtomEntry, content, AtomContent, {"atom:content"}) END
  CLASS(AtomFeed, "atom:feed", {"AtomCommon"}) atomc(c); LIST_(AtomFeed, entry, AtomEntry, {"atom:entry"}) END
  CLASS(XalAddressDetails, "xal:AddressDetails", {}) CHILD_(XalAddressDetails, country, XalCountry, {"xal:Country"}) END
  CLASS(XalCountry, "xal:Country", {}) STR_(XalCountry, countrynamecode, "xal:CountryNameCode") CHILD_(XalCountry, administrativearea, XalAdministrativeArea, {"xal:AdministrativeArea"}) END
  CLASS(XalAdministrativeArea, "xal:AdministrativeArea", {}) STR_(XalAdministrativeArea, administrativeareaname, "xal:AdministrativeAreaName") CHILD_(XalAdministrativeArea, locality, XalLocality, {"xal:Locality"}) CHILD_(XalAdministrativeArea, subadministrativearea, XalSubAdministrativeArea, {"xal:SubAdministrativeArea"}) END
  CLASS(XalSubAdministrativeArea, "xal:SubAdministrativeArea", {}) STR_(XalSubAdministrativeArea, subadministrativeareaname, "xal:SubAdministrativeAreaName") CHILD_(XalSubAdministrativeArea, locality, XalLocality, {"xal:Locality"}) END
  CLASS(XalLocality, "xal:Locality", {}) STR_(XalLocality, localityname, "xal:LocalityName") CHILD_(XalLocality, thoroughfare, XalThoroughfare, {"xal:Thoroughfare"}) CHILD_(XalLocality, postalcode, XalPostalCode, {"xal:PostalCode"}) END
  CLASS(XalThoroughfare, "xal:Thoroughfare", {}) STR_(XalThoroughfare, thoroughfarename, "xal:ThoroughfareName") STR_(XalThoroughfare, thoroughfarenumber, "xal:ThoroughfareNumber") END
  CLASS(XalPostalCode, "xal:PostalCode", {}) STR_(XalPostalCode, postalcodenumber, "xal:PostalCodeNumber") END
  return out;
}
}
