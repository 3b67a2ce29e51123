From 144e6fff0c2e5bc0a9364ed13a46f14fc0d4d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:51 +0000
Subject: [PATCH 01/54] fix: KMZ-relative fetch of a target found nowhere
 recursed without bound

A reference into a KMZ that resolves to itself (for example a KMZ with no
KML file in it) sent KmzCache::DoFetchAndReturnUrl into infinite recursion.
Also report the actual URL of the default KML file found this way.
---
 src/kml/engine/kmz_cache.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/kmz_cache.cc b/src/kml/engine/kmz_cache.cc
index ab85769..1c827ad 100644
--- a/src/kml/engine/kmz_cache.cc
+++ b/src/kml/engine/kmz_cache.cc
@@ -119,10 +119,22 @@ bool KmzCache::DoFetchAndReturnUrl(KmlUri* kml_uri, string* content,
   if (!kmz_relative.get()) {
     return false;
   }
+  // These are the only two meanings of a KMZ relative reference.  If this
+  // latter URL is into a KMZ as well only that KMZ is consulted such that a
+  // reference to something in neither place fails (as opposed to being
+  // resolved against itself over and over).
+  if (kmz_relative->is_kmz()) {
+    if (!Fetch(kmz_relative->get_kmz_url()) ||
+        !FetchFromCache(kmz_relative.get(), content)) {
+      return false;
+    }
+  } else if (!DoFetch(kmz_relative.get(), content)) {
+    return false;
+  }
   if (fetched_url) {
     *fetched_url = kmz_relative->get_url();
   }
-  return DoFetch(kmz_relative.get(), content);
+  return true;
 }
 
 bool KmzCache::FetchFromCache(KmlUri* kml_uri, string* content) const {
-- 
2.43.0


From 0f76657d5e3afe05f6a3f3ddc02861305da83327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:51 +0000
Subject: [PATCH 02/54] fix: NetCache cached undecodable items and ignored a
 size limit of 0

An item which could not be created from the fetched data was saved as a NULL
entry, evicting valid items and counting towards the limit; a limit of 0
made the cache grow without limit.
---
 src/kml/base/net_cache.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index 1d979b7..dbb6248 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -129,6 +129,9 @@ class NetCache {
     }
     // Fetch succeeded: create a CacheItem from the data.
     CacheItemPtr item = CacheItem::CreateFromString(data);
+    if (!item) {
+      return NULL;  // The data is not valid for this CacheItem: nothing to save.
+    }
     if (!Save(url, item)) {  // This is basically an internal error.
       return NULL;
     }
@@ -159,7 +162,10 @@ class NetCache {
     if (exists) {
       return false;
     }
-    if (cache_map_.size() == max_size_) {
+    if (max_size_ == 0) {
+      return true;  // A cache of this size holds nothing.
+    }
+    if (cache_map_.size() >= max_size_) {
       RemoveOldest();
     }
     // It is not expected cache_count_ ever roll over.  See net_cache_test.cc
-- 
2.43.0


From b5148b25c3a60c707f3c4a6fc8d936a3d5959818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:01 +0000
Subject: [PATCH 03/54] fix: fetch by URI without its fragment, and only the
 fragment removed

The network was asked for URLs with their fragment, so that each styleUrl into
one file fetched and cached that file anew.  GetFetchableUri also lost the
query, any user info and the whole of file:/// style prefixes.
---
 src/kml/engine/kml_uri.cc | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index bc20e98..b612902 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -60,7 +60,9 @@ KmlUri* KmlUri::CreateRelative(const string& base,
   if (kml_uri->target_uri_.get() &&
       ResolveUri(base, target, &kml_uri->url_) &&
       GetFetchableUri(kml_uri->url_, &fetchable_url)) {
-    kml_uri->is_kmz_ = KmzSplit(fetchable_url,
+    // A fragment is never part of what is fetched.
+    kml_uri->url_ = fetchable_url;
+    kml_uri->is_kmz_ = KmzSplit(fetchable_url.substr(0, fetchable_url.find('?')),
                                 &kml_uri->kmz_url_,
                                 &kml_uri->path_in_kmz_);
     return kml_uri;
@@ -180,26 +182,8 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
   if (!fetchable_uri) {
     return true;  // uri parsed fine, just not interested in output.
   }
-  string scheme;
-  static_cast<void> (uri_parser->GetScheme(&scheme));
-  string host;
-  static_cast<void> (uri_parser->GetHost(&host));
-
-  if (!scheme.empty() && !host.empty()) {
-    fetchable_uri->append(scheme).append("://",3).append(host);
-    string port;
-    static_cast<void> (uri_parser->GetPort(&port));
-    if (!port.empty()) {
-      fetchable_uri->append(":",1).append(port);
-    }
-    fetchable_uri->append("/",1);
-  }
-
-  string path;
-  static_cast<void> (uri_parser->GetPath(&path));
-  if (!path.empty()) {
-    fetchable_uri->append(path);
-  }
+  // A '#' appears in a valid uri only to start its fragment.
+  *fetchable_uri = uri.substr(0, uri.find('#'));
   return true;
 }
 
-- 
2.43.0


From 7b6270c6da3ac72aa9975ad7e14868e65c3ec2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:37 +0000
Subject: [PATCH 04/54] fix: gx:Playlist did not become the parent of its tour
 primitives

---
 src/kml/dom/gx_tour.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index 0322aa5..e1c9cf4 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -83,7 +83,7 @@ GxPlaylist::~GxPlaylist() {}
 
 void GxPlaylist::add_gx_tourprimitive(
     const GxTourPrimitivePtr& gx_tourprimitive) {
-  gx_tourprimitive_array_.push_back(gx_tourprimitive);
+  AddComplexChild(gx_tourprimitive, &gx_tourprimitive_array_);
 }
 
 size_t GxPlaylist::get_gx_tourprimitive_array_size() const {
-- 
2.43.0


From 1c297ee98c55a3a9b94dedea9c833dad24c9a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:42 +0000
Subject: [PATCH 05/54] fix: escape markup characters when serializing
 attribute values

---
 src/kml/base/attributes.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 5cc8508..28dc995 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -71,6 +71,22 @@ bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   return true;
 }
 
+// Appends value such that an XML parser reads it back from inside a double
+// quoted attribute value unchanged.
+static void AppendEscaped(const string& value, string* output) {
+  for (size_t i = 0; i < value.size(); ++i) {
+    switch (value[i]) {
+      case '&': *output += "&amp;"; break;
+      case '<': *output += "&lt;"; break;
+      case '"': *output += "&quot;"; break;
+      case '\t': *output += "&#9;"; break;
+      case '\n': *output += "&#10;"; break;
+      case '\r': *output += "&#13;"; break;
+      default: *output += value[i];
+    }
+  }
+}
+
 void Attributes::Serialize(string* output) const {
   if (output) {
     StringMapIterator iter = CreateIterator();
@@ -78,7 +94,7 @@ void Attributes::Serialize(string* output) const {
       *output += " ";
       *output += iter.Data().first;
       *output += "=\"";
-      *output += iter.Data().second;
+      AppendEscaped(iter.Data().second, output);
       *output += "\"";
     }
   }
-- 
2.43.0


From 1c891545b1d43d80f1ce827ada02b3258e86194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:52 +0000
Subject: [PATCH 06/54] fix: pretty serialization added white space to the text
 of Snippet, linkSnippet and SimpleData

---
 src/kml/dom/xml_serializer.h | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/kml/dom/xml_serializer.h b/src/kml/dom/xml_serializer.h
index 3b03443..b18ae8c 100644
--- a/src/kml/dom/xml_serializer.h
+++ b/src/kml/dom/xml_serializer.h
@@ -89,7 +89,8 @@ class XmlSerializer : public Serializer {
     : newline_(newline),
       indent_(indent),
       output_(output),
-      start_pending_(false) {
+      start_pending_(false),
+      text_depth_(0) {
   }
 
   virtual ~XmlSerializer() {}
@@ -116,12 +117,15 @@ class XmlSerializer : public Serializer {
     if (EmitStart(true)) {
       tag_stack_.pop();
     } else {
+      Indent(tag_stack_.size() - 1);
       tag_stack_.pop();
-      Indent();
       output_->write("</", 2);
       const string& tag_name = xsd_.ElementName(type_id);
       output_->write(tag_name.data(), tag_name.size());
       output_->put('>');
+      if (tag_stack_.size() < text_depth_) {
+        text_depth_ = 0;  // This was the element holding the text.
+      }
       Newline();
     }
   }
@@ -148,6 +152,10 @@ class XmlSerializer : public Serializer {
 
   // Save out character data.
   virtual void SaveContent(const string& content, bool maybe_quote) {
+    if (maybe_quote && !content.empty() && !InText()) {
+      // This is the element's value: no white space may be added to it.
+      text_depth_ = tag_stack_.size();
+    }
     EmitStart(false);
     if (maybe_quote) {
       WriteQuoted(content);
@@ -189,18 +197,27 @@ class XmlSerializer : public Serializer {
 
   // Emit one level of indentation.
   virtual void Indent() {
-    if (!indent_.empty()) {
-      size_t depth = tag_stack_.size();
+    Indent(tag_stack_.size());
+  }
+
+ private:
+  // True if within an element whose character data is its value.
+  bool InText() const {
+    return text_depth_ > 0 && tag_stack_.size() >= text_depth_;
+  }
+
+  // Emit the given number of levels of indentation.
+  void Indent(size_t depth) {
+    if (!indent_.empty() && !InText()) {
       while (depth--) {
         output_->write(indent_.data(), indent_.size());
       }
     }
   }
 
- private:
   // Emit a line break.
   void Newline() {
-    if (!newline_.empty()) {
+    if (!newline_.empty() && !InText()) {
       output_->write(newline_.data(), newline_.size());
     }
   }
@@ -238,6 +255,8 @@ class XmlSerializer : public Serializer {
   T* output_;
   std::stack<int> tag_stack_;
   bool start_pending_;
+  // The nesting depth of the element whose text is being saved, else 0.
+  size_t text_depth_;
   string serialized_attributes_;
 };
 
-- 
2.43.0


From 1ce5f7bbf59932ff3a927cc288be7f79ae393ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:45 +0000
Subject: [PATCH 07/54] fix: xal:LocalityName was not serialized

---
 src/kml/dom/xal.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index 08f597e..cc8ea07 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -164,6 +164,9 @@ void XalLocality::AddElement(const ElementPtr& element) {
 
 void XalLocality::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
+  if (has_localityname()) {
+    serializer.SaveFieldById(Type_xalLocalityName, get_localityname());
+  }
   if (has_thoroughfare()) {
     serializer.SaveElement(get_thoroughfare());
   }
-- 
2.43.0


From 90be4affe95c50829c378e67b08f01726fb0db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:16 +0000
Subject: [PATCH 08/54] fix: parse <coordinates> without fixed buffers, endless
 loops or lost tuples

A newline after the last coordinate of a tuple now separates tuples as the
documented formula says, text with no number in it terminates, a number of
any length fits, and no value is left uninitialized.
---
 src/kml/dom/geometry.cc | 182 +++++++++++++++++++++++-----------------
 1 file changed, 103 insertions(+), 79 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index ed43273..e535ff6 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -52,6 +52,75 @@ Coordinates::Coordinates() {
 
 Coordinates::~Coordinates() {}
 
+static bool IsDigit(char c) {
+  return c >= '0' && c <= '9';
+}
+
+static bool IsSpace(char c) {
+  return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
+static const char* SkipSpace(const char* cp) {
+  while (IsSpace(*cp)) {
+    ++cp;
+  }
+  return cp;
+}
+
+// Skip to the next whitespace or comma.
+static const char* SkipToSeparator(const char* cp) {
+  while (*cp && *cp != ',' && !IsSpace(*cp)) {
+    ++cp;
+  }
+  return cp;
+}
+
+// True if a decimal number starts here: [+-]digit or [+-].digit
+static bool IsNumberStart(const char* cp) {
+  if (*cp == '-' || *cp == '+') {
+    ++cp;
+  }
+  if (*cp == '.') {
+    ++cp;
+  }
+  return IsDigit(*cp);
+}
+
+// This reads the decimal number at *cpp, see IsNumberStart(), and advances
+// *cpp past it.
+static double ReadNumber(const char** cpp) {
+  const char* cp = *cpp;
+  const char* begin = cp;
+  if (*cp == '-' || *cp == '+') {
+    ++cp;
+  }
+  while (IsDigit(*cp)) {
+    ++cp;
+  }
+  if (*cp == '.') {
+    ++cp;
+    while (IsDigit(*cp)) {
+      ++cp;
+    }
+  }
+  if (*cp == 'e' || *cp == 'E') {
+    const char* exponent = cp + 1;
+    if (*exponent == '-' || *exponent == '+') {
+      ++exponent;
+    }
+    if (IsDigit(*exponent)) {
+      while (IsDigit(*exponent)) {
+        ++exponent;
+      }
+      cp = exponent;
+    }
+  }
+  *cpp = cp;
+  double value = 0.0;
+  kmlbase::FromString(string(begin, cp), &value);
+  return value;
+}
+
 // This parses off a Vec3 from the given string and returns a pointer
 // to the end of chars consumed.  The purpose is for use in the inner loop
 // of the overall parse of a <coordinates> string.  This handles both 2d and
@@ -81,97 +150,52 @@ Coordinates::~Coordinates() {}
 // like this: "1.1*2.2,3,3" will become "1.1,3.3,0.0". This precisely matches
 // the precent for parsing of bad coordinate strings set by Google Earth.
 bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
-  
   if (!cstr || !vec) {  // Not much to do w/o input or output.
     return false;
   }
-  bool done = false;
-  
-  int k;
-  char lon[1024];
-  k = 0;
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) { ++cstr; }
-  const char *first = cstr;
-  
-  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; ++k; }
-  
-  memcpy(lon, first, k);
-  lon[k] = '\0'; 
-  string lon_s = string(lon);
-  if( lon_s.empty()) { done = false; return done; }
-  
-  double longitude; 
-  kmlbase::StringToDouble(lon_s, &longitude);
-  vec->set(0, longitude);
-  
-  
-  while(*cstr && *cstr!='-' && *cstr!='\n' && !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  char lat[1024];
-  first = cstr;
-  k = 0;
-  int b = 0;
-  while (*cstr  && *cstr!=',') {
-    if( *cstr==' ') {
-      b = 1;  
-      break;
-    }
-    ++cstr;  ++k;
-  }
-  memcpy(lat, first, k);
-  lat[k] = '\0';
-  done = true;
-  
-  string lat_s = string(lat);
-  double latitude = 0.0;
-  if( !lat_s.empty())
-    kmlbase::StringToDouble(lat_s, &latitude);
-  
-  vec->set(1, latitude);
-  
-  
-  while(*cstr && *cstr!='-'&& !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  if ( b < 1) {
-    char alt[1024];
-    first = cstr;
-    k = 0;
-    while (*cstr && *cstr!=',') {
-      if( *cstr==' ') {
-	b = 1;  
-	break;
+  *vec = Vec3();
+  // Discard anything before the first number.
+  while (*cstr && !IsNumberStart(cstr)) {
+    ++cstr;
+  }
+  const bool found = *cstr != '\0';
+  if (found) {
+    vec->set(0, ReadNumber(&cstr));
+    cstr = SkipToSeparator(cstr);
+    cstr = SkipSpace(cstr);
+    if (*cstr == ',') {
+      cstr = SkipSpace(cstr + 1);
+      if (IsNumberStart(cstr)) {
+        vec->set(1, ReadNumber(&cstr));
+      }
+      cstr = SkipToSeparator(cstr);
+      const char* comma = SkipSpace(cstr);
+      if (*comma == ',') {
+        cstr = SkipSpace(comma + 1);
+        if (IsNumberStart(cstr)) {
+          vec->set(2, ReadNumber(&cstr));
+        }
+        cstr = SkipToSeparator(cstr);
       }
-      ++cstr;  ++k;
     }
-    memcpy(alt, first, k); 
-    alt[k] = '\0';
-    
-    string alt_s = string(alt);
-    double altitude;
-    if( !alt_s.empty() ) {
-      kmlbase::StringToDouble(alt_s, &altitude);
-      vec->set(2, altitude);
+    // Tuples are separated by whitespace.  A comma is accepted also.
+    while (IsSpace(*cstr) || *cstr == ',') {
+      ++cstr;
     }
   }
-  
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) ++cstr;
-  
-  *nextp = const_cast<char*>(cstr);
-  
-  return done;
+  if (nextp) {
+    *nextp = const_cast<char*>(cstr);
+  }
+  return found;
 }
 
 // The char_data is everything between <coordinates> elements including
 // leading and trailing whitespace.
 void Coordinates::Parse(const string& char_data) {
-  const char* cstr = char_data.c_str();
-  const char* endp = cstr + char_data.size();
-  char* next = const_cast<char*>(cstr);
-  while (next != endp) {
-    Vec3 vec;
-    if (ParseVec3(next, &next, &vec)) {
-      coordinates_array_.push_back(vec);
-    }
+  char* next = const_cast<char*>(char_data.c_str());
+  Vec3 vec;
+  while (ParseVec3(next, &next, &vec)) {
+    coordinates_array_.push_back(vec);
   }
 }
 
-- 
2.43.0


From 1cdd52417d81171e98eafeb37c34587a930f6ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:32 +0000
Subject: [PATCH 09/54] fix: gx:coord and gx:angles accept any white space and
 never read uninitialized values

---
 src/kml/dom/geometry.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index e535ff6..fe95dd1 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -579,16 +579,14 @@ void GxTrack::Parse(const string& char_data, std::vector<Vec3>* out) {
   if (!out) {
     return;
   }
-  // TODO: this is a little heavy. Optimization along the lines of
-  // Coordinates::Parse may be required.
-  std::vector<string> s;
-  kmlbase::SplitStringUsing(char_data, " ", &s);
+  // Any form of whitespace separates the values as with Coordinates::Parse.
   kmlbase::Vec3 vec;
-  for (size_t i = 0; i < s.size(); i++) {
-    double d;
-    kmlbase::FromString(s[i], &d);
-    vec.set(static_cast<int>(i), d);
-    if (i > 2) break;
+  const char* cp = char_data.c_str();
+  for (int i = 0; i < 3 && *(cp = SkipSpace(cp)); i++) {
+    vec.set(i, IsNumberStart(cp) ? ReadNumber(&cp) : 0.0);
+    while (*cp && !IsSpace(*cp)) {
+      ++cp;
+    }
   }
   out->push_back(vec);
 }
-- 
2.43.0


From ef94554c6858cebcc05fba908b2fd76946d2fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:54 +0000
Subject: [PATCH 10/54] fix: hotSpot was never dispatched to VisitHotSpot

---
 src/kml/dom/hotspot.cc | 6 ++++++
 src/kml/dom/hotspot.h  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/kml/dom/hotspot.cc b/src/kml/dom/hotspot.cc
index 94dc5b1..1da3a7d 100644
--- a/src/kml/dom/hotspot.cc
+++ b/src/kml/dom/hotspot.cc
@@ -24,6 +24,8 @@
 // ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "kml/dom/hotspot.h"
+#include "kml/dom/kml_ptr.h"
+#include "kml/dom/visitor.h"
 
 namespace kmldom {
 
@@ -31,4 +33,8 @@ HotSpot::HotSpot() {}
 
 HotSpot::~HotSpot() {}
 
+void HotSpot::Accept(Visitor* visitor) {
+  visitor->VisitHotSpot(HotSpotPtr(this));
+}
+
 }  // end namespace kmldom
diff --git a/src/kml/dom/hotspot.h b/src/kml/dom/hotspot.h
index 9ac1392..0fd0f28 100644
--- a/src/kml/dom/hotspot.h
+++ b/src/kml/dom/hotspot.h
@@ -43,6 +43,9 @@ class HotSpot : public Vec2 {
     return type == Type_hotSpot || Vec2::IsA(type);
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void Accept(Visitor* visitor);
+
  private:
   friend class KmlFactory;
   HotSpot();
-- 
2.43.0


From 41bb5be732ee4cc891eb630f6574f638b12deedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 11/54] fix: CreateExpandedStrings skipped references after a
 replacement

---
 src/kml/base/string_util.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index a865922..516b99e 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -46,15 +46,15 @@ string CreateExpandedStrings(const string& in,
   StringMap::const_iterator itr = string_map.begin();
   for (itr = string_map.begin(); itr != string_map.end(); ++itr)  {
     string candidate(start + itr->first + end);
+    if (candidate.empty()) {
+      continue;
+    }
     size_t start_pos = out.find(candidate);
     while (start_pos != string::npos) {
       out.replace(start_pos, candidate.size(), itr->second);
-      // Avoid an infinite loop if the value contains the key. Allow the first
-      // replacement to happen, then bail.
-      if (itr->second.find(itr->first) != string::npos) {
-        break;
-      }
-      start_pos = out.find(candidate, start_pos + candidate.size());
+      // Continue after the replacement.  This avoids an infinite loop if the
+      // value contains the key.
+      start_pos = out.find(candidate, start_pos + itr->second.size());
     }
   }
   return out;
-- 
2.43.0


From 49de7a0036036a1222bd45571a29857253a2c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 12/54] fix: field content holding ]]>, a CDATA start or a
 carriage return did not read back equal

---
 src/kml/dom/serializer.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/kml/dom/serializer.cc b/src/kml/dom/serializer.cc
index ab25bae..e1a3d13 100644
--- a/src/kml/dom/serializer.cc
+++ b/src/kml/dom/serializer.cc
@@ -37,13 +37,20 @@ using kmlbase::ToString;
 namespace kmldom {
 
 static string EnityEscapeXml(const string& xml) {
-  kmlbase::StringMap map;
-  map["&"] = "&amp;";
-  map["<"] = "&lt;";
-  map[">"] = "&gt;";
-  map["'"] = "&apos;";
-  map["\""] = "&quot;";
-  return kmlbase::CreateExpandedStrings(xml, map, "", "");
+  string out;
+  for (size_t i = 0; i < xml.size(); ++i) {
+    switch (xml[i]) {
+      case '&': out += "&amp;"; break;
+      case '<': out += "&lt;"; break;
+      case '>': out += "&gt;"; break;
+      case '\'': out += "&apos;"; break;
+      case '"': out += "&quot;"; break;
+      // An XML parser reads any literal line break as "\n".
+      case '\r': out += "&#13;"; break;
+      default: out += xml[i];
+    }
+  }
+  return out;
 }
 
 Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
@@ -57,7 +64,10 @@ const string Serializer::MaybeQuoteString(const string& value) {
   // If there's a CDATA anywhere in this string, it must have been set through
   // the API (since the underlying XML parser will strip it out). We need to
   // entity-replace any reserved characters.
-  if (value.find("<![CDATA[") != string::npos) {
+  // Neither the end of a CDATA nor a carriage return can appear within one.
+  if (value.find("<![CDATA[") != string::npos ||
+      value.find("]]>") != string::npos ||
+      value.find('\r') != string::npos) {
     return EnityEscapeXml(value);
   }
   // If the string contains any reserved characters (but does not have any
-- 
2.43.0


From 411fccf15b76bcf3bef01214a83b2f5eebd65971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:53 +0000
Subject: [PATCH 13/54] fix: unknown content was saved unescaped and a
 description within it broke the next one

---
 src/kml/dom/kml_handler.cc | 39 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 08e8625..dbd2992 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -55,6 +55,31 @@ kMaxNestingDepth = LIBKML_MAX_NESTING_DEPTH;
 
 namespace kmldom {
 
+// Append character data to the saved markup of an unknown element.
+static void AppendEscaped(const string& s, string* output) {
+  for (size_t i = 0; i < s.size(); ++i) {
+    switch (s[i]) {
+      case '&': output->append("&amp;"); break;
+      case '<': output->append("&lt;"); break;
+      case '>': output->append("&gt;"); break;
+      case '"': output->append("&quot;"); break;
+      case '\r': output->append("&#13;"); break;
+      default: output->push_back(s[i]);
+    }
+  }
+}
+
+// As above for an attribute value, where a parser normalizes white space.
+static void AppendEscapedAttribute(const string& s, string* output) {
+  for (size_t i = 0; i < s.size(); ++i) {
+    switch (s[i]) {
+      case '\t': output->append("&#9;"); break;
+      case '\n': output->append("&#10;"); break;
+      default: AppendEscaped(string(1, s[i]), output);
+    }
+  }
+}
+
 KmlHandler::KmlHandler(parser_observer_vector_t& observers)
   : kml_factory_(*KmlFactory::GetFactory()),
     skip_depth_(0),
@@ -210,7 +235,8 @@ void KmlHandler::EndElement(const string& name) {
   // inside <description> elements. Here we are checking to see if (1) we're
   // inside a closing </description> element and (2) if we're at the end of any
   // possible series of nested description elements.
-  if (name.length() == 11 && name == "description" && --in_description_ == 0) {
+  if (in_description_ > 0 && name.length() == 11 && name == "description" &&
+      --in_description_ == 0) {
     skip_depth_--;
   }
 
@@ -328,6 +354,11 @@ bool KmlHandler::CallAddChildObservers(
 // <Placemark><Point><coordinates/></Point></Placemark>
 // <X><Point>foo<coordinates/>bar</Point></P> remains as-is.
 void KmlHandler::CharData(const string& s) {
+  if (skip_depth_ > 0 && in_description_ == 0) {
+    // This is saved along with the markup of the unknown element it is in.
+    AppendEscaped(s, &char_data_.top());
+    return;
+  }
   char_data_.top().append(s);
 }
 
@@ -355,7 +386,11 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    top.append(atts.at(i+1));
+    if (in_description_ > 0) {
+      top.append(atts.at(i+1));
+    } else {
+      AppendEscapedAttribute(atts.at(i+1), &top);
+    }
     top.append("\"");
   }
   top.append(">");
-- 
2.43.0


From 8988eca1a2b70f3a268904dcf04d3c594e3e1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:25 +0000
Subject: [PATCH 14/54] fix: an href starting with a literal CDATA marker lost
 it when read

The XML parser removes CDATA sections before the text gets here.
---
 src/kml/dom/link.cc | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/kml/dom/link.cc b/src/kml/dom/link.cc
index 0aea457..529f007 100644
--- a/src/kml/dom/link.cc
+++ b/src/kml/dom/link.cc
@@ -40,33 +40,13 @@ BasicLink::BasicLink()
 BasicLink::~BasicLink() {
 }
 
-// TODO: fix CDATA parsing in general.
-static const char *kCdataOpen = "<![CDATA[";
-
-static bool SetStringInsideCdata(ElementPtr element,
-                                 const string& char_data,
-                                 string* val) {
-  if (!element) {
-    return false;
-  }
-  string::size_type offset = strlen(kCdataOpen);
-  if (char_data.compare(0, offset, kCdataOpen, offset) == 0) {
-    *val = char_data.substr(offset, char_data.size() - offset - 3);
-    return true;
-  }
-  return element->SetString(val);
-}
-
 void BasicLink::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
   switch (element->Type()) {
     case Type_href:
-      // TODO: use a generalized approach
-      // has_href_ = element->SetString(&href_);
-      has_href_ = SetStringInsideCdata(element, element->get_char_data(),
-                                       &href_);
+      has_href_ = element->SetString(&href_);
       break;
     default:
       Object::AddElement(element);
-- 
2.43.0


From 1e46b9d3f66d025aa6124300751e1c3c7d448013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:33 +0000
Subject: [PATCH 15/54] fix: coordinates lost its unknown attributes and
 misplaced content when serialized

---
 src/kml/dom/geometry.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index fe95dd1..e48e1ca 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -205,14 +205,12 @@ void Coordinates::AddElement(const ElementPtr& element) {
 }
 
 void Coordinates::Serialize(Serializer& serializer) const {
-  Attributes dummy;
-  serializer.BeginById(Type(), dummy);
+  ElementSerializer element_serializer(*this, serializer);
   serializer.BeginElementArray(Type(), coordinates_array_.size());
   for (size_t i = 0; i < coordinates_array_.size(); ++i) {
     serializer.SaveVec3(coordinates_array_[i]);
   }
   serializer.EndElementArray(Type_coordinates);
-  serializer.End();
 }
 
 void Coordinates::Accept(Visitor* visitor) {
-- 
2.43.0


From 634f0802a41e63f9e4cfa430b89afb2815f068af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:54 +0000
Subject: [PATCH 16/54] fix: merging elements lost the text of Snippet,
 linkSnippet and SimpleData

---
 src/kml/engine/merge.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index ac9171a..241c474 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -94,6 +94,18 @@ class FieldMerger : public Serializer {
     target_->AddElement(field);
   }
 
+  // This is called for the text of an element such as <Snippet>, which parses
+  // its own character data, and for each unknown element which is not a field.
+  virtual void SaveContent(const string& content, bool maybe_quote) {
+    const KmlDomType type = target_->Type();
+    if (maybe_quote && !content.empty() &&
+        (type == kmldom::Type_Snippet || type == kmldom::Type_linkSnippet ||
+         type == kmldom::Type_SimpleData)) {
+      target_->set_char_data(content);
+      target_->AddElement(target_);
+    }
+  }
+
   // Serializer::SaveColor() is called to save all Color32 values.
   virtual void SaveColor(int type_id, const kmlbase::Color32& color) {
     SaveFieldById(type_id, color.to_string_abgr());
-- 
2.43.0


From 6b295517aebc64606308078a9734d7c3424dcd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:36 +0000
Subject: [PATCH 17/54] fix: ParseAtom stopped an uninitialized parser on an
 unknown root element

---
 src/kml/base/expat_handler_ns.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/base/expat_handler_ns.cc b/src/kml/base/expat_handler_ns.cc
index 3ad0b93..92396b2 100644
--- a/src/kml/base/expat_handler_ns.cc
+++ b/src/kml/base/expat_handler_ns.cc
@@ -59,6 +59,8 @@ const string ExpatHandlerNs::TranslatePrefixedName(
 
 void ExpatHandlerNs::StartElement(const string& prefixed_name,
                                   const kmlbase::StringVector& atts) {
+  // The wrapped handler may stop the parse.
+  expat_handler_->set_parser(get_parser());
   expat_handler_->StartElement(TranslatePrefixedName(prefixed_name), atts);
 }
 
-- 
2.43.0


From 331c32074b6a217c1a5716ebfdd127160c80b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:36 +0000
Subject: [PATCH 18/54] fix: parsing an empty string returned neither a
 document nor an error

---
 src/kml/base/expat_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 9a11720..a8bc9b3 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -143,7 +143,7 @@ bool ExpatParser::ParseInternalBuffer(size_t len, string* errors,
 // Private.
 bool ExpatParser::_ParseString(const string& xml, string* errors) {
   int xml_size = static_cast<int>(xml.size());
-  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, xml_size);
+  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, XML_TRUE);
   if (status != XML_STATUS_OK && errors) {
     // This is the other half of XML_StopParser() which is our way of
     // stopping expat if the root element is not KML.
-- 
2.43.0


From 8a19bd846d6d10340a93e65c76cc96eb45630fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:29 +0000
Subject: [PATCH 19/54] fix: old style Schema names clashing with open
 elements, and markup in their children, crashed the parser

---
 src/kml/dom/kml_handler.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index dbd2992..4cde37a 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -125,6 +125,15 @@ void KmlHandler::StartElement(const string& name,
     return;
   }
 
+  if (in_old_schema_placemark_) {
+    // The children of an old Schema placemark have only character data.  Any
+    // markup here is unknown content of the placemark.
+    char_data_.push(string());
+    InsertUnknownStartElement(name, attrs);
+    skip_depth_++;
+    return;
+  }
+
   // If we see <Schema parent=""> then we attempt to parse the old Schema
   // usage outlined in the header. The name of the schema is stored in the
   // old_schema_name_ string.
@@ -444,7 +453,8 @@ void KmlHandler::HandleOldSchemaEndElement(
     const SchemaPtr& schema,
     const string& old_schema_name,
     StringVector* simplefield_name_vec) {
-  if (!simplefield_name_vec) {
+  // An old Schema can give the name of any element, even that of <Schema>.
+  if (!schema || !simplefield_name_vec) {
     return;
   }
   schema->set_id(old_schema_name + "_id");
@@ -465,6 +475,10 @@ void KmlHandler::HandleOldSchemaParentEndElement(
     const string& old_schema_name,
     const KmlFactory& kml_factory,
     const std::vector<SimpleDataPtr> simpledata_vec) {
+  // An element of this name begun before the <Schema> is not a placemark.
+  if (!placemark) {
+    return;
+  }
   // We've reached the closing tag of the old placemark substitute
   // element. Take the SimpleData elements we've been creating from its
   // children and hand them to an ExtendedData, then give that to the
-- 
2.43.0


From 5875f881c070faad64564f303a87a9ea14a9012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:29 +0000
Subject: [PATCH 20/54] fix: KmlFile gave no error message for a KMZ without
 readable KML

---
 src/kml/engine/kml_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/engine/kml_file.cc b/src/kml/engine/kml_file.cc
index d09141b..d2edf4f 100644
--- a/src/kml/engine/kml_file.cc
+++ b/src/kml/engine/kml_file.cc
@@ -85,6 +85,9 @@ bool KmlFile::OpenAndParseKmz(const string& kmz_data,
   string kml_data;
   KmzFilePtr kmz_file = kmlengine::KmzFile::OpenFromString(kmz_data);
   if (!kmz_file || !kmz_file->ReadKml(&kml_data)) {
+      if (errors) {
+        *errors = "Unable to read KML from KMZ";
+      }
       return false;
   }
   return ParseFromString(kml_data, errors);
-- 
2.43.0


From bc8894f1f273cec41676f50b0046b0fed1e303fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:37 +0000
Subject: [PATCH 21/54] fix: no error message for a buffered parse stopped by
 its handler

---
 src/kml/base/expat_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index a8bc9b3..20e34a5 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -162,7 +162,9 @@ void ExpatParser::ReportError(XML_Parser parser, string* errors) {
     return;
   }
   std::stringstream strstream;
-  strstream << XML_ErrorString(XML_GetErrorCode(parser));
+  const XML_LChar* message = XML_ErrorString(XML_GetErrorCode(parser));
+  // Expat has no error message for a parse stopped with XML_StopParser().
+  strstream << (message ? message : "parsing stopped");
   strstream << " on line ";
   strstream << XML_GetCurrentLineNumber(parser);
   strstream << " at offset ";
-- 
2.43.0


From 782eb632617982b5be082da62e00d177b39a1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:37 +0000
Subject: [PATCH 22/54] fix: KmlStream returned a partial or empty document
 when reading its input failed

---
 src/kml/engine/kml_stream.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kml/engine/kml_stream.cc b/src/kml/engine/kml_stream.cc
index b6bd25e..d85c3c9 100644
--- a/src/kml/engine/kml_stream.cc
+++ b/src/kml/engine/kml_stream.cc
@@ -69,6 +69,14 @@ KmlStream* KmlStream::ParseFromIstream(
     }
   }
 
+  // The parse is complete only if the whole input was read.
+  if (!input->eof()) {
+    if (errors) {
+      *errors = "error reading input";
+    }
+    return NULL;
+  }
+
   // Parse succeeded.  Construct KmlStream.
   KmlStream* kml_stream = new KmlStream;
   kml_stream->set_root(kml_handler.PopRoot());
-- 
2.43.0


From 8db9eed4469f720d2ea46a6323fed8c76ac888e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:32 +0000
Subject: [PATCH 23/54] fix: observers were told that a child was added when
 adding it had been refused

---
 src/kml/dom/kml_handler.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 4cde37a..b64d8c9 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -325,9 +325,9 @@ void KmlHandler::EndElement(const string& name) {
     stack_.pop();
     if (CallEndElementObservers(observers_, stack_.top(), child)) {
       stack_.top()->AddElement(child);
-    }
-    if (!CallAddChildObservers(observers_, stack_.top(), child)) {
-      XML_StopParser(get_parser(), XML_TRUE);
+      if (!CallAddChildObservers(observers_, stack_.top(), child)) {
+        XML_StopParser(get_parser(), XML_TRUE);
+      }
     }
   }
 }
-- 
2.43.0


From ac5340d93ba7ca4e8623aeb6a3961e83104f54f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:05 +0000
Subject: [PATCH 24/54] fix: an update changing an object with both id and
 targetId changed the target's id

---
 src/kml/engine/update_processor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kml/engine/update_processor.cc b/src/kml/engine/update_processor.cc
index 16c9a37..d15769e 100644
--- a/src/kml/engine/update_processor.cc
+++ b/src/kml/engine/update_processor.cc
@@ -77,7 +77,15 @@ void UpdateProcessor::ProcessUpdateChange(const ChangePtr& change) {
     string targetid;
     if (GetTargetId(source_object, &targetid)) {
       if (ObjectPtr target_object = kml_file_.GetObjectById(targetid)) {
+        const bool has_id = target_object->has_id();
+        const string id = target_object->get_id();
         MergeElements(source_object, target_object);
+        // The id of the target is never changed.
+        if (has_id) {
+          target_object->set_id(id);
+        } else {
+          target_object->clear_id();
+        }
         // It's easier to just clear the target's targetId= attribute than
         // to teach MergeElements() how to avoid copying targetId from
         // source to target.  This does imply that targetId is treated as
-- 
2.43.0


From d1b13866253624cb2554d1cac7881ff9203d5a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:37 +0000
Subject: [PATCH 25/54] fix: ClearIds left the ids of objects whose id occurs
 again

---
 src/kml/engine/id_mapper.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/id_mapper.cc b/src/kml/engine/id_mapper.cc
index a28c489..cf2ac92 100644
--- a/src/kml/engine/id_mapper.cc
+++ b/src/kml/engine/id_mapper.cc
@@ -69,14 +69,18 @@ void MapIds(const ElementPtr& root, ObjectIdMap* object_id_map,
 }
 
 const ElementPtr& ClearIds(const ElementPtr& root) {
-  // Get all objects with an id.
+  // Get all objects with an id including those whose id is not unique.
   ObjectIdMap object_id_map;
-  MapIds(root, &object_id_map, NULL);
+  ElementVector dup_id_vector;
+  MapIds(root, &object_id_map, &dup_id_vector);
   // Iterate through them all and clear the id.
   ObjectIdMap::const_iterator iter = object_id_map.begin();
   for (; iter != object_id_map.end(); ++iter) {
     iter->second->clear_id();
   }
+  for (size_t i = 0; i < dup_id_vector.size(); ++i) {
+    AsObject(dup_id_vector[i])->clear_id();
+  }
   return root;
 }
 
-- 
2.43.0


From ba2d6da2c633b921e01d3ba65af78420d7597326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:37 +0000
Subject: [PATCH 26/54] fix: a style without an id was found as a shared style
 with an empty id

---
 src/kml/engine/shared_style_parser_observer.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/kml/engine/shared_style_parser_observer.h b/src/kml/engine/shared_style_parser_observer.h
index f89219f..df3569a 100644
--- a/src/kml/engine/shared_style_parser_observer.h
+++ b/src/kml/engine/shared_style_parser_observer.h
@@ -60,12 +60,13 @@ class SharedStyleParserObserver : public kmldom::ParserObserver {
     // to terminate the parse.
     if (kmldom::DocumentPtr document = kmldom::AsDocument(parent)) {
       if (kmldom::StyleSelectorPtr ss = kmldom::AsStyleSelector(child)) {
-        if (ss->has_id()) {
-          if (strict_parse_ && shared_style_map_->find(ss->get_id()) !=
-                               shared_style_map_->end()) {
-            // TODO: provide means to send back an and error string with id
-            return false;  // Duplicate id, fail parse.
-          }
+        if (!ss->has_id()) {
+          return true;  // Not a shared style, keep parsing.
+        }
+        if (strict_parse_ && shared_style_map_->find(ss->get_id()) !=
+                             shared_style_map_->end()) {
+          // TODO: provide means to send back an and error string with id
+          return false;  // Duplicate id, fail parse.
         }
         // No such mapping so save it, and "last one wins" on non-strict parse.
         (*shared_style_map_)[ss->get_id()] = ss;
-- 
2.43.0


From 177560ca29f66864eeef7ebc51dd8f0ec5f0da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 27/54] fix: importing a document lost shared styles whose id
 is repeated by another object

---
 src/kml/engine/kml_file.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/kml/engine/kml_file.cc b/src/kml/engine/kml_file.cc
index d2edf4f..7805e84 100644
--- a/src/kml/engine/kml_file.cc
+++ b/src/kml/engine/kml_file.cc
@@ -27,6 +27,7 @@
 
 #include "kml/engine/kml_file.h"
 #include "kml/base/xml_namespaces.h"
+#include "kml/engine/find.h"
 #include "kml/engine/find_xml_namespaces.h"
 #include "kml/engine/id_mapper.h"
 #include "kml/engine/kmz_file.h"
@@ -148,14 +149,14 @@ KmlFile* KmlFile::CreateFromImportInternal(const kmldom::ElementPtr& element,
     return NULL;
   }
   // Add all the shared styles to the style map. A shared style is any style
-  // with an id whose parent is a document (and by defintion anything in
-  // object_id_map_ has an id).
-  ObjectIdMap::const_iterator it;
-  for (it = map_ptr->begin(); it != map_ptr->end(); it++) {
-    if (kmldom::StyleSelectorPtr ss = kmldom::AsStyleSelector(it->second)) {
-      if (kmldom::AsDocument(ss->GetParent())) {
-        (kml_file->shared_style_map_)[ss->get_id()] = ss;
-      }
+  // with an id whose parent is a document.  (object_id_map_ does not have a
+  // style whose id is also that of a later object.)
+  ElementVector styles;
+  GetElementsById(element, kmldom::Type_StyleSelector, &styles);
+  for (size_t i = 0; i < styles.size(); ++i) {
+    kmldom::StyleSelectorPtr ss = kmldom::AsStyleSelector(styles[i]);
+    if (ss->has_id() && kmldom::AsDocument(ss->GetParent())) {
+      (kml_file->shared_style_map_)[ss->get_id()] = ss;
     }
   }
   // TODO check/set all elements under elements to be in this file.
-- 
2.43.0


From 189563d031ed0ad2a979e5a32ceb3a8c1d7d3278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:30 +0000
Subject: [PATCH 28/54] fix: StyleMerger resolves a remote style's own
 styleUrls against its file

A styleUrl with a host but no path was looked up in the referring file, and a
Pair's styleUrl in a remote StyleMap was resolved against the file that
referred to the StyleMap instead of the one that holds it.
---
 src/kml/engine/style_merger.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index 8ea9bb5..4f6435f 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -84,15 +84,17 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   if (--nesting_depth_ < 0) {
     return;
   }
+  string scheme;
+  string host;
   string path;
   string style_id;  // fragment
   if (styleurl.empty() ||
-      !SplitUri(styleurl, NULL, NULL, NULL, &path, NULL, &style_id) ||
+      !SplitUri(styleurl, &scheme, &host, NULL, &path, NULL, &style_id) ||
       style_id.empty()) {
     return;  // Empty or bad styleurl or w/o fragment: ignore.
   }
-  // If there's no path this is a StyleSelector within this file.
-  if (path.empty()) {
+  // If there's only a fragment this is a StyleSelector within this file.
+  if (scheme.empty() && host.empty() && path.empty()) {
     SharedStyleMap::const_iterator found = shared_style_map_.find(style_id);
     if (found != shared_style_map_.end()) {
       MergeStyleSelector(found->second);
@@ -119,8 +121,13 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   }
   // TODO: resolve relative hrefs in substyles of this styleselector w.r.t.
   // fetchable_url
-  // Merge in this StyleSelector.
-  MergeStyleSelector(styleselector);
+  // Merge in this StyleSelector.  Any further styleUrl within it is relative to
+  // the file it came from.
+  StyleMerger remote_merger(kml_file->get_shared_style_map(), kml_cache_,
+                            kml_file->get_url(), style_state_, nesting_depth_);
+  remote_merger.MergeStyleSelector(styleselector);
+  nesting_depth_ = remote_merger.get_nesting_depth();
+  MergeElements(remote_merger.GetResolvedStyle(), resolved_style_);
 }
 
 // Both Feature and Pair have a styleUrl and/or StyleSelector.
-- 
2.43.0


From c8b8f407f7f641e7d6f88f74cd50beb44cc7c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:00 +0000
Subject: [PATCH 29/54] fix: SplitStyles gives each split style an id of its
 own

The id of an inline style replaced the generated one, leaving the styleUrl
dangling, a generated id could be the same as one in use later in the
document, and the first Document could be one inside an Update.
---
 src/kml/engine/style_splitter.cc | 57 ++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 6fefcdc..4a26205 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -32,14 +32,55 @@
 #include "kml/base/string_util.h"
 #include "kml/dom.h"
 #include "kml/dom/parser_observer.h"
+#include "kml/engine/clone.h"
 #include "kml/engine/engine_types.h"
-#include "kml/engine/merge.h"
 
 namespace kmlengine {
 
+namespace {
+
+// This marks each id in use in the given SharedStyleMap such that no id
+// created for a split style collides with it.
+class IdCollector : public kmldom::ParserObserver {
+ public:
+  IdCollector(SharedStyleMap* shared_style_map)
+    : shared_style_map_(shared_style_map) {}
+
+  virtual bool NewElement(const kmldom::ElementPtr& element) {
+    if (kmldom::ObjectPtr object = kmldom::AsObject(element)) {
+      if (object->has_id()) {
+        (*shared_style_map_)[object->get_id()] = NULL;
+      }
+    }
+    return true;
+  }
+
+ private:
+  SharedStyleMap* shared_style_map_;
+};
+
+// This creates ids past any in the given SharedStyleMap.
+class UniqueIdStyleSplitter : public StyleSplitter {
+ public:
+  UniqueIdStyleSplitter(SharedStyleMap* shared_style_map)
+    : StyleSplitter(shared_style_map) {}
+
+  virtual string CreateUniqueId(const SharedStyleMap& shared_style_map,
+                                unsigned int id_counter) {
+    string id(StyleSplitter::CreateUniqueId(shared_style_map, id_counter));
+    while (shared_style_map.find(id) != shared_style_map.end()) {
+      id = StyleSplitter::CreateUniqueId(shared_style_map, ++id_counter);
+    }
+    return id;
+  }
+};
+
+}  // end namespace
+
 bool StyleSplitter::NewElement(const kmldom::ElementPtr& element) {
   // Use the first <Document> found as the home of all shared styles.
-  if (!document_ && element->IsA(kmldom::Type_Document)) {
+  // Don't use one inside an <Update>.
+  if (!document_ && !in_update_ && element->IsA(kmldom::Type_Document)) {
     document_ = AsDocument(element);
   }
   // Don't touch anything inside an <Update>.
@@ -83,12 +124,10 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
         // ...and this id does not collide:
         if (shared_style_map_->find(style_id) == shared_style_map_->end()) {
           ++id_counter_;  // Bump the id counter only if it was used.
-          // Create an empty StyleSelector of the child's type and set the id.
+          // Copy the child StyleSelector and give the copy the new id.
           kmldom::StyleSelectorPtr shared =
-              CreateStyleSelector(child->Type());
+              kmldom::AsStyleSelector(kmlengine::Clone(child));
           shared->set_id(style_id);
-          // Merge the children from child into the new StyleSelector.
-          kmlengine::MergeElements(child, shared);
           // Add the StyleSelector to the Document and the shared style map.
           document_->add_styleselector(shared);
           (*shared_style_map_)[shared->get_id()] = shared;
@@ -111,7 +150,11 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
 kmldom::ElementPtr SplitStyles(const string& input_kml,
                                string* errors) {
   SharedStyleMap shared_style_map;
-  StyleSplitter style_splitter(&shared_style_map);
+  IdCollector id_collector(&shared_style_map);
+  kmldom::Parser id_parser;
+  id_parser.AddObserver(&id_collector);
+  id_parser.Parse(input_kml, NULL);
+  UniqueIdStyleSplitter style_splitter(&shared_style_map);
   kmldom::Parser parser;
   parser.AddObserver(&style_splitter);
   return parser.Parse(input_kml, errors);
-- 
2.43.0


From 74562747b2c6f41565f724770290f5124a019dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 30/54] fix: InlineStyles keeps what each feature looks like

A feature's own style replaced the inlined one instead of applying over it,
shared styles were dropped though something still referred to them (a forward
reference, the Document's styleUrl, a Pair), a shared StyleMap was inlined
though what it leads to was not known yet or is in another file, and
http://host#id was taken for a local reference.
---
 src/kml/engine/style_inliner.cc         | 125 +++++++++++++++++++++---
 src/kml/engine/style_inliner_internal.h |  22 +++++
 2 files changed, 134 insertions(+), 13 deletions(-)

diff --git a/src/kml/engine/style_inliner.cc b/src/kml/engine/style_inliner.cc
index 1b32818..b31d29c 100644
--- a/src/kml/engine/style_inliner.cc
+++ b/src/kml/engine/style_inliner.cc
@@ -27,8 +27,11 @@
 
 #include "kml/engine/style_inliner.h"
 #include "kml/engine/style_inliner_internal.h"
+#include <set>
+#include "kml/engine/clone.h"
 #include "kml/engine/id_mapper.h"
 #include "kml/engine/kml_uri.h"
+#include "kml/engine/merge.h"
 #include "kml/engine/style_resolver.h"
 
 namespace kmlengine {
@@ -40,7 +43,7 @@ StyleInliner::StyleInliner()
 // ParserObserver::NewElement()
 bool StyleInliner::NewElement(const kmldom::ElementPtr& element) {
   // Grab a pointer to what we will consider the root <Document>.
-  if (!document_ && element->IsA(kmldom::Type_Document)) {
+  if (!document_ && !in_update_ && element->IsA(kmldom::Type_Document)) {
     document_ = AsDocument(element);
   }
   if (element->IsA(kmldom::Type_Update)) {
@@ -80,21 +83,35 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
     if (child->Type() == kmldom::Type_styleUrl) {
       // If it's a local reference and we've captured this shared style
       // give a copy of that to the Feature instead of this styleUrl.
-      string fragment;
-      string path;
-      if (SplitUri(child->get_char_data(), NULL, NULL, NULL, &path, NULL,
-                   &fragment) && path.empty()) {
-        SharedStyleMap::const_iterator iter = shared_styles_.find(fragment);
-        if (iter != shared_styles_.end()) {
-          feature->set_styleselector(
-              kmlengine::StyleResolver::CreateResolvedStyleSelector(
-                  child->get_char_data(), shared_styles_));
-          return false;  // Don't add the <styleUrl> to the feature.
-        }
+      string id;
+      if (IsLocal(child->get_char_data(), &id) && CanInline(id)) {
+        inlined_feature_ = feature;
+        inlined_style_ = kmldom::AsStyleMap(
+            kmlengine::StyleResolver::CreateResolvedStyleSelector(
+                child->get_char_data(), shared_styles_));
+        Overlay(feature->get_styleselector(), inlined_style_);
+        feature->set_styleselector(inlined_style_);
+        return false;  // Don't add the <styleUrl> to the feature.
       }
       // We fall to here if the styleUrl is a remote reference or if the
       // styleUrl's local reference is not found.
     }
+    // The feature's own style applies over the shared style it refers to.
+    if (kmldom::StyleSelectorPtr styleselector =
+        kmldom::AsStyleSelector(child)) {
+      if (feature == inlined_feature_) {
+        Overlay(styleselector, inlined_style_);
+        GetStyleUrls(styleselector, &styleurls_);
+        return false;  // The feature already has its StyleSelector.
+      }
+    }
+  }
+  // Take note of each reference left in place.
+  if (kmldom::AsFeature(parent)) {
+    if (child->Type() == kmldom::Type_styleUrl) {
+      styleurls_.push_back(child->get_char_data());
+    }
+    GetStyleUrls(kmldom::AsStyleSelector(child), &styleurls_);
   }
   // Everything else.
   return true;
@@ -108,12 +125,94 @@ bool StyleInliner::AddChild(const kmldom::ElementPtr& parent,
   return true;  // Always continue parsing.
 }
 
+// static
+bool StyleInliner::IsLocal(const string& styleurl, string* id) {
+  string scheme;
+  string host;
+  string path;
+  return SplitUri(styleurl, &scheme, &host, NULL, &path, NULL, id) &&
+      scheme.empty() && host.empty() && path.empty();
+}
+
+// static
+void StyleInliner::GetStyleUrls(const kmldom::StyleSelectorPtr& styleselector,
+                                std::vector<string>* styleurls) {
+  if (kmldom::StyleMapPtr stylemap = kmldom::AsStyleMap(styleselector)) {
+    for (size_t i = 0; i < stylemap->get_pair_array_size(); ++i) {
+      const kmldom::PairPtr& pair = stylemap->get_pair_array_at(i);
+      if (pair->has_styleurl()) {
+        styleurls->push_back(pair->get_styleurl());
+      }
+      GetStyleUrls(pair->get_styleselector(), styleurls);
+    }
+  }
+}
+
+bool StyleInliner::CanInline(const string& id) const {
+  std::set<string> seen;
+  std::vector<string> ids(1, id);
+  while (!ids.empty()) {
+    const string next(ids.back());
+    ids.pop_back();
+    if (!seen.insert(next).second) {
+      continue;
+    }
+    SharedStyleMap::const_iterator iter = shared_styles_.find(next);
+    if (iter == shared_styles_.end()) {
+      return false;
+    }
+    std::vector<string> styleurls;
+    GetStyleUrls(iter->second, &styleurls);
+    for (size_t i = 0; i < styleurls.size(); ++i) {
+      string styleurl_id;
+      if (!IsLocal(styleurls[i], &styleurl_id)) {
+        return false;
+      }
+      ids.push_back(styleurl_id);
+    }
+  }
+  return true;
+}
+
+// static
+void StyleInliner::Overlay(const kmldom::StyleSelectorPtr& styleselector,
+                           const kmldom::StyleMapPtr& stylemap) {
+  if (kmldom::StylePtr style = kmldom::AsStyle(styleselector)) {
+    for (size_t i = 0; i < stylemap->get_pair_array_size(); ++i) {
+      MergeElements(ClearIds(style),
+                    stylemap->get_pair_array_at(i)->get_styleselector());
+    }
+  } else if (kmldom::StyleMapPtr from = kmldom::AsStyleMap(styleselector)) {
+    // A later Pair of the same key applies over an earlier one.
+    for (size_t i = 0; i < from->get_pair_array_size(); ++i) {
+      stylemap->add_pair(kmldom::AsPair(Clone(from->get_pair_array_at(i))));
+    }
+  }
+}
+
+void StyleInliner::RestoreReferencedStyles() {
+  std::set<string> seen;
+  // GetStyleUrls() below appends to this.
+  for (size_t i = 0; i < styleurls_.size(); ++i) {
+    string id;
+    if (IsLocal(styleurls_[i], &id) && seen.insert(id).second) {
+      SharedStyleMap::const_iterator iter = shared_styles_.find(id);
+      if (iter != shared_styles_.end()) {
+        document_->add_styleselector(iter->second);
+        GetStyleUrls(iter->second, &styleurls_);
+      }
+    }
+  }
+}
+
 kmldom::ElementPtr InlineStyles(const string& input_kml,
                                string* errors) {
   StyleInliner style_inliner;
   kmldom::Parser parser;
   parser.AddObserver(&style_inliner);
-  return parser.Parse(input_kml, errors);
+  kmldom::ElementPtr root = parser.Parse(input_kml, errors);
+  style_inliner.RestoreReferencedStyles();
+  return root;
 }
 
 }  // end namespace kmlengine
diff --git a/src/kml/engine/style_inliner_internal.h b/src/kml/engine/style_inliner_internal.h
index eab7495..fad001a 100644
--- a/src/kml/engine/style_inliner_internal.h
+++ b/src/kml/engine/style_inliner_internal.h
@@ -28,6 +28,7 @@
 #ifndef KML_ENGINE_STYLE_INLINER_INTERNAL_H__
 #define KML_ENGINE_STYLE_INLINER_INTERNAL_H__
 
+#include <vector>
 #include "kml/base/string_util.h"
 #include "kml/dom.h"
 #include "kml/engine/engine_types.h"
@@ -73,7 +74,28 @@ class StyleInliner : public kmldom::ParserObserver {
     return shared_styles_;
   }
 
+  // This puts each shared style that something still refers to back into the
+  // <Document>.  Call this after the parse.
+  void RestoreReferencedStyles();
+
  private:
+  // Is the given styleUrl only an id within this file?
+  static bool IsLocal(const string& styleurl, string* id);
+  // Append each styleUrl within the given StyleSelector.
+  static void GetStyleUrls(const kmldom::StyleSelectorPtr& styleselector,
+                           std::vector<string>* styleurls);
+  // True if all that the shared style of the given id leads to has been
+  // captured such that a copy can stand in for a reference to it.
+  bool CanInline(const string& id) const;
+  // Merge the feature's own StyleSelector over the inlined one.
+  static void Overlay(const kmldom::StyleSelectorPtr& styleselector,
+                      const kmldom::StyleMapPtr& stylemap);
+
+  // The most recent feature whose styleUrl was replaced by inlined_style_.
+  kmldom::FeaturePtr inlined_feature_;
+  kmldom::StyleMapPtr inlined_style_;
+  // Each styleUrl left in place.
+  std::vector<string> styleurls_;
   kmlengine::SharedStyleMap shared_styles_;
   kmldom::DocumentPtr document_;
   bool in_update_;
-- 
2.43.0


From b92c124fc707893928aec2b9062570f56cc90360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:54 +0000
Subject: [PATCH 31/54] fix: EntityMapper labels SimpleData by its own
 SchemaData's schema

The field names of an earlier SchemaData's schema were used for a later
SchemaData, and a SimpleData whose schema has no such field got an empty label.
---
 src/kml/engine/entity_mapper.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/kml/engine/entity_mapper.cc b/src/kml/engine/entity_mapper.cc
index 4f87c40..6a88817 100644
--- a/src/kml/engine/entity_mapper.cc
+++ b/src/kml/engine/entity_mapper.cc
@@ -140,6 +140,7 @@ void EntityMapper::GatherDataFields(const DataPtr& data) {
 void EntityMapper::GatherSchemaDataFields(const SchemaDataPtr& schemadata) {
   // We need to take the schemaUrl and find the <Schema> with that id.
   schemadata_prefix_ = "/";
+  simplefield_name_map_.clear();  // These are of the previous SchemaData.
   if (schemadata->has_schemaurl()) {
     // We need to get the name= attr of the <Schema> with the id= attr that
     // matches this schemaUrl.
@@ -184,17 +185,15 @@ void EntityMapper::GatherSimpleDataFields(const SimpleDataPtr& simpledata) {
       simpledata->get_text();
   }
   // If there is a schemaUrl, the names we will use for display are in
-  // the populated map. If there isn't, the map is empty and we'll use the
-  // name attr of the SimpleData element.
+  // the populated map. If there isn't, or the schema has no such field, we'll
+  // use the name attr of the SimpleData element.
   if (alt_markup_map_) {
-    if (simplefield_name_map_.empty()) {
-      alt_markup_map_->push_back(
-          std::make_pair(simpledata->get_name(), simpledata->get_text()));
-    } else {
-      alt_markup_map_->push_back(
-          std::make_pair(simplefield_name_map_[simpledata->get_name()],
-                         simpledata->get_text()));
-    }
+    StringMap::const_iterator iter =
+        simplefield_name_map_.find(simpledata->get_name());
+    alt_markup_map_->push_back(
+        std::make_pair(iter == simplefield_name_map_.end() ?
+                           simpledata->get_name() : iter->second,
+                       simpledata->get_text()));
   }
 }
 
-- 
2.43.0


From 7508c84491953d567a2c938f087a0be905444208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:57 +0000
Subject: [PATCH 32/54] fix: File reports read and write errors

WriteStringToFile returned true whether or not the data could be written and
ReadFileToString returned true after a read error (a directory, for example).
---
 src/kml/base/file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 7aec359..31bf54c 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -56,7 +56,7 @@ bool File::ReadFileToString(const string& filename, string* output) {
       output->append(buffer, static_cast<size_t>(input_file.gcount()));
     }
   }
-  return true;
+  return input_file.eof();  // Anything else is a read error.
 }
 
 bool File::WriteStringToFile(const string& data,
@@ -71,7 +71,7 @@ bool File::WriteStringToFile(const string& data,
   }
   output_file.write(data.c_str(), static_cast<std::streamsize>(data.length()));
   output_file.close();
-  return true;
+  return output_file.good();
 }
 
 string File::JoinPaths(const string& p1, const string& p2) {
-- 
2.43.0


From 896090a1b87a3ddac60fd858376f9971ebaf7e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:44 +0000
Subject: [PATCH 33/54] fix: ZipFile::GetEntry checks the data and reads empty
 entries

An entry whose data does not match its CRC was returned as if intact, an
existing empty entry was reported missing, the size claimed by the archive was
allocated up front, and a file name of 1024 bytes or more was read past the
end of its buffer.
---
 src/kml/base/zip_file.cc | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 3366837..3e2ffda 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -98,10 +98,11 @@ ZipFile::ZipFile(const string& data)
     if (zfile) {
       unz_file_info finfo;
       do {
-        static char buf[1024];
-        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf),
+        // The length of a file name is a 16 bit value.
+        std::vector<char> buf(65536);
+        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, &buf[0], buf.size(),
               0, 0, 0, 0) == UNZ_OK) {
-          zipfile_toc_.push_back(buf);
+          zipfile_toc_.push_back(&buf[0]);
         }
       } while (libkml_unzGoToNextFile(zfile) == UNZ_OK);
       libkml_unzClose(zfile);
@@ -196,25 +197,33 @@ bool ZipFile::GetEntry(const string& path_in_zip,
     return false;
   }
   unsigned long nbytes = finfo.uncompressed_size;
-  if (nbytes == 0 || nbytes > max_uncompressed_file_size_) {
+  if (nbytes > max_uncompressed_file_size_) {
     // This is likely an imcompatibility between the library with which the
     // file was created and what the underlying minizip library can
     // uncompress. One such error is in the unit test for this file.
     return false;
   }
   // We permit output to be NULL.
-  if (!output) {
+  if (!output && nbytes != 0) {
     return true;
   }
-  char* filedata = new char[nbytes];
-  if (libkml_unzReadCurrentFile(unzfilehelper->get_unzfile(), filedata,
-                         nbytes) == static_cast<int>(nbytes)) {
-    output->assign(filedata, nbytes);
-    delete [] filedata;
-    return true;
+  // The size is what the archive claims so allocate only as data is read.
+  string data;
+  char buf[16384];
+  int nread;
+  while ((nread = libkml_unzReadCurrentFile(unzfilehelper->get_unzfile(), buf,
+                                            sizeof(buf))) > 0) {
+    data.append(buf, nread);
+  }
+  // Closing the entry checks the CRC.
+  if (nread < 0 || data.size() != nbytes ||
+      libkml_unzCloseCurrentFile(unzfilehelper->get_unzfile()) != UNZ_OK) {
+    return false;
   }
-  delete [] filedata;
-  return false;
+  if (output) {
+    output->swap(data);
+  }
+  return true;
 }
 
 bool ZipFile::AddEntry(const string& data,
-- 
2.43.0


From be542e31c4e087d2083dd515111b5a40a0fe6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:23 +0000
Subject: [PATCH 34/54] fix: archive creation reports failure and refuses paths
 above the root

A path such as a/../../x was accepted.  Errors writing an entry or the central
directory were ignored, so a truncated archive was reported as created, and
creating an archive from KML that does not parse dereferenced NULL.
---
 src/kml/base/zip_file.cc   | 51 +++++++++++++++++++++++++++++++-------
 src/kml/base/zip_file.h    |  8 +++++-
 src/kml/engine/kmz_file.cc | 15 ++++++++---
 src/kml/engine/kmz_file.h  |  6 +++++
 4 files changed, 67 insertions(+), 13 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 3e2ffda..49a646a 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -45,9 +45,13 @@ class MinizipFile {
  public:
   MinizipFile(zipFile zipfile) : zipfile_(zipfile) {}
   ~MinizipFile() {
-    if (zipfile_) {
-      zipClose(zipfile_, 0);
-    }
+    Close();
+  }
+  // Returns false if the file is not complete.
+  bool Close() {
+    zipFile zipfile = zipfile_;
+    zipfile_ = NULL;
+    return zipfile && zipClose(zipfile, 0) == ZIP_OK;
   }
   zipFile get_zipfile() { return zipfile_; }
  private:
@@ -226,11 +230,33 @@ bool ZipFile::GetEntry(const string& path_in_zip,
   return true;
 }
 
+// Does some ".." in the given relative path lead above where it starts?
+static bool LeadsAboveRoot(const string& path) {
+  int depth = 0;
+  size_t begin = 0;
+  while (begin <= path.size()) {
+    size_t end = path.find_first_of("/\\", begin);
+    if (end == string::npos) {
+      end = path.size();
+    }
+    const string segment = path.substr(begin, end - begin);
+    if (segment == "..") {
+      if (--depth < 0) {
+        return true;
+      }
+    } else if (!segment.empty() && segment != ".") {
+      ++depth;
+    }
+    begin = end + 1;
+  }
+  return false;
+}
+
 bool ZipFile::AddEntry(const string& data,
                        const string& path_in_zip) {
   // The path must be relative to and below the archive.
   if (path_in_zip.substr(0, 1).find_first_of("/\\") != string::npos ||
-      path_in_zip.substr(0, 2) == "..") {
+      path_in_zip.substr(0, 2) == ".." || LeadsAboveRoot(path_in_zip)) {
     return false;
   }
   if (!minizip_file_) {
@@ -240,11 +266,18 @@ bool ZipFile::AddEntry(const string& data,
   if (!zipfile) {
     return false;
   }
-  zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
-                      Z_DEFLATED, Z_DEFAULT_COMPRESSION);
-  zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
-                      static_cast<unsigned int>(data.size()));
-  return zipCloseFileInZip(zipfile) == ZIP_OK;
+  if (zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
+                          Z_DEFLATED, Z_DEFAULT_COMPRESSION) != ZIP_OK) {
+    return false;
+  }
+  const int write_status = zipWriteInFileInZip(
+      zipfile, static_cast<const void*>(data.data()),
+      static_cast<unsigned int>(data.size()));
+  return zipCloseFileInZip(zipfile) == ZIP_OK && write_status == ZIP_OK;
+}
+
+bool ZipFile::Close() {
+  return minizip_file_ && minizip_file_->Close();
 }
 
 }  // end namespace kmlbase
diff --git a/src/kml/base/zip_file.h b/src/kml/base/zip_file.h
index f823d1c..f143afb 100644
--- a/src/kml/base/zip_file.h
+++ b/src/kml/base/zip_file.h
@@ -98,13 +98,19 @@ class ZipFile {
 
   // Writes data to path_in_zip. The path must be relative to the root of the
   // archive. e.g. AddEntry(data, "somedir/file.png"). Specifically, paths that
-  // start with a '/' or '..' will be rejected and false is returned. False is
+  // start with a '/' or '..' or lead above the root will be rejected and false is returned. False is
   // also returned on any internal ZIP file error. The ZipFile instance must
   // have been created with ZipFile::Create. If it wasn't false is returned.
   // Note that a second call to AddEntry with new data to the same path is
   // essentially a NOP. True will be returned, but the data is unchanged.
   bool AddEntry(const string& data, const string& path_in_zip);
 
+  // Completes a ZIP file created with ZipFile::Create. Returns false if the
+  // file could not be completely written. No entries can be added after this.
+  // The destructor does this if it has not been done, with no way to tell if
+  // it succeeded.
+  bool Close();
+
  private:
   // The constructor used to open a ZIP file in-memory, suitable for reading.
   ZipFile(const string& data);
diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 05ac2d5..db8b56b 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -136,6 +136,10 @@ bool KmzFile::AddFile(const string& data, const string& path_in_kmz) {
   return zip_file_->AddEntry(data, path_in_kmz);
 }
 
+bool KmzFile::Close() {
+  return zip_file_->Close();
+}
+
 // TODO: the implementation of this function really belongs in base/zip_file.
 size_t KmzFile::AddFileList(const string& base_url,
                             const StringVector& file_paths) {
@@ -197,7 +201,7 @@ bool KmzFile::WriteKmz(const char* kmz_filepath, const string& kml) {
   if (!kmz->AddFile(kml, kDefaultKmlFilename)) {
     return false;
   }
-  return kmlbase::File::Exists(kmz_filepath);
+  return kmz->Close() && kmlbase::File::Exists(kmz_filepath);
 }
 
 // Static.
@@ -234,7 +238,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
   const string kml_data = kmldom::SerializePretty(element);
   // First add the KML file. This is the file opened by default by a client
   // from a KMZ archive.
-  kmz_file->AddFile(kml_data, kDefaultKmlFilename);
+  if (!kmz_file->AddFile(kml_data, kDefaultKmlFilename)) {
+    return false;
+  }
 
   // Next gather the local references and add them.
   StringVector file_paths;
@@ -242,12 +248,15 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
     kmz_file->AddFileList(base_url, file_paths);
   }
 
-  return kmlbase::File::Exists(kmz_filepath);
+  return kmz_file->Close() && kmlbase::File::Exists(kmz_filepath);
 }
 
 // Static.
 bool KmzFile::CreateFromKmlFile(const KmlFilePtr& kml_file,
                                 const string& kmz_filepath) {
+  if (!kml_file) {
+    return false;
+  }
   return KmzFile::CreateFromElement(
       kml_file->get_root(), kml_file->get_url(), kmz_filepath);
 }
diff --git a/src/kml/engine/kmz_file.h b/src/kml/engine/kmz_file.h
index c338b03..a394caf 100644
--- a/src/kml/engine/kmz_file.h
+++ b/src/kml/engine/kmz_file.h
@@ -118,6 +118,12 @@ class KmzFile : public kmlbase::Referent {
   // False is also returned on any interal zipfile error.
   bool AddFile(const string& data, const string& path_in_kmz);
 
+  // Completes a KMZ file created with Create(). Returns false if the file
+  // could not be completely written. No files can be added after this. The
+  // destructor does this if it has not been done, with no way to tell if it
+  // succeeded.
+  bool Close();
+
   // Adds a StringVector of hrefs to the KMZ file, resolved against a base
   // URL. The base URL is usually from kmz_file->get_url() and the hrefs
   // are most easily generated from GetRelativeLinks. All paths are normalized
-- 
2.43.0


From a2ca7c0aaefe902bcf768add09915a249bbc0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:03 +0000
Subject: [PATCH 35/54] fix: archive entries with long names can be read,
 GetToc appends

An entry whose name has 256 bytes or more was listed but could not be read.
GetToc() and KmzFile::List() are documented to append to the given vector.
---
 src/kml/base/contrib/minizip/unzip.c | 3 ++-
 src/kml/base/zip_file.cc             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/contrib/minizip/unzip.c b/src/kml/base/contrib/minizip/unzip.c
index df33f79..78493a5 100644
--- a/src/kml/base/contrib/minizip/unzip.c
+++ b/src/kml/base/contrib/minizip/unzip.c
@@ -75,7 +75,8 @@ woven in by Terry Thorsen 1/2003.
 #endif
 
 #ifndef UNZ_MAXFILENAMEINZIP
-#define UNZ_MAXFILENAMEINZIP (256)
+/* The length of a file name is a 16 bit value. */
+#define UNZ_MAXFILENAMEINZIP (65536)
 #endif
 
 #ifndef ALLOC
diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 49a646a..05729dc 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -147,7 +147,7 @@ bool ZipFile::GetToc(kmlbase::StringVector* subfiles) const {
   if (!subfiles) {
     return false;
   }
-  *subfiles = zipfile_toc_;
+  subfiles->insert(subfiles->end(), zipfile_toc_.begin(), zipfile_toc_.end());
   return true;
 }
 
-- 
2.43.0


From 16d251ba5981f9408e333a4c6458893a755ba1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:02 +0000
Subject: [PATCH 36/54] fix: Href and KmzSplit split a reference by its grammar

Href took any ':' and '//' anywhere in a reference for a scheme and an
authority, and KmzSplit took a host named *.kmz for an archive.  SplitUri
left components that are absent from the URI as they were.
---
 src/kml/engine/href.cc    | 48 +++++++++++++++++++++------------------
 src/kml/engine/kml_uri.cc | 20 +++++++++++++++-
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/src/kml/engine/href.cc b/src/kml/engine/href.cc
index b9a28df..21ae499 100644
--- a/src/kml/engine/href.cc
+++ b/src/kml/engine/href.cc
@@ -29,42 +29,46 @@ namespace kmlengine {
 
 // private
 size_t Href::ParseScheme(const string& href) {
-  // Look for <scheme>://...
-  size_t css = href.find("://");
-  if (css == string::npos || css == 0) {
+  // Look for <scheme>:...  A scheme is a letter followed by letters, digits,
+  // '+', '-' and '.'.  Any other ':' is not the end of a scheme.
+  const string kAlpha(
+      "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ");
+  size_t colon = href.find_first_not_of(kAlpha + "0123456789+-.");
+  if (colon == string::npos || colon == 0 || href[colon] != ':' ||
+      kAlpha.find(href[0]) == string::npos) {
     return 0;
   }
-  scheme_ = href.substr(0, css);
-  return css + 3;  // First char after ://
+  scheme_ = href.substr(0, colon);
+  return colon + 1;  // First char after :
 }
 
 // private
 size_t Href::ParseNetLoc(const string& href) {
-  // Look for ...://<net_loc>/...
-  size_t slash = href.find('/');
-  if (slash == string::npos) {
+  // Look for //<net_loc>/...
+  if (href.compare(0, 2, "//") != 0) {
     return 0;
   }
-  net_loc_ = href.substr(0, slash);
-  return slash + 1;  // First char after /
+  size_t net_loc_end = href.find_first_of("/?", 2);
+  if (net_loc_end == string::npos) {
+    net_loc_ = href.substr(2);
+    return href.size();
+  }
+  net_loc_ = href.substr(2, net_loc_end - 2);
+  // First char after /
+  return href[net_loc_end] == '/' ? net_loc_end + 1 : net_loc_end;
 }
 
 // private
 void Href::Parse(const string& href) {
-  size_t net_loc_start = ParseScheme(href);
-  size_t path_start;
-  if (net_loc_start > 0) {
-    path_start = ParseNetLoc(href.substr(net_loc_start)) + net_loc_start;
-  } else {
-    path_start = 0;
-  }
-  size_t path_end = href.size();
-  size_t pound = href.find_first_of('#');
+  string rest(href);
+  size_t pound = rest.find_first_of('#');
   if (pound != string::npos) {
-    fragment_ = href.substr(pound + 1);
-    path_end = pound;
+    fragment_ = rest.substr(pound + 1);
+    rest.erase(pound);
   }
-  path_ = href.substr(path_start, path_end);
+  rest.erase(0, ParseScheme(rest));
+  rest.erase(0, ParseNetLoc(rest));
+  path_ = rest;
 }
 
 }  // end namespace kmlengine
diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index b612902..93ab24e 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -145,6 +145,12 @@ bool SplitUri(const string& uri, string* scheme, string* host,
   we void cast them  to keep coverity checker 
   from annoying us.
   */
+  string* components[] = { scheme, host, port, path, query, fragment };
+  for (size_t i = 0; i < sizeof(components)/sizeof(components[0]); ++i) {
+    if (components[i]) {
+      components[i]->clear();
+    }
+  }
   static_cast<void>(uri_parser->GetScheme(scheme));
   static_cast<void>(uri_parser->GetHost(host));
   static_cast<void>(uri_parser->GetPort(port));
@@ -189,7 +195,19 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
 
 bool KmzSplit(const string& kml_url, string* kmz_url,
               string* kmz_path) {
-  size_t kmz = kml_url.find(".kmz");
+  // The host is not part of the path.
+  size_t path_start = kml_url.find("://");
+  if (path_start == string::npos) {
+    path_start = 0;
+  } else {
+    path_start = kml_url.find('/', path_start + 3);
+  }
+  // Find the first path segment that ends in ".kmz".
+  size_t kmz = kml_url.find(".kmz", path_start);
+  while (kmz != string::npos && kmz + 4 != kml_url.size() &&
+         kml_url[kmz + 4] != '/') {
+    kmz = kml_url.find(".kmz", kmz + 1);
+  }
   if (kmz == string::npos) {
     return false;
   }
-- 
2.43.0


From 13d0ae1cfb8890f87cdf3ba4107d6e4ebafccafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:10 +0000
Subject: [PATCH 37/54] fix: KmzCheckLinks does not report fragment-only links
 as missing files

---
 src/kml/convenience/kmz_check_links.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/kmz_check_links.cc b/src/kml/convenience/kmz_check_links.cc
index 015fbc3..1750cf2 100644
--- a/src/kml/convenience/kmz_check_links.cc
+++ b/src/kml/convenience/kmz_check_links.cc
@@ -51,7 +51,7 @@ bool KmzCheckLinks(const KmzFile& kmzfile, vector<string>* missing_links) {
   bool ret = true;  // Innocent until proven guilty.
   for (size_t i = 0; i < href_vector.size(); ++i) {
     Href href(href_vector[i]);
-    if (href.IsRelative()) {
+    if (href.IsRelativePath()) {
       string content;
       if (!kmzfile.ReadFile(href.get_path().c_str(), &content)) {
         if (missing_links) {
-- 
2.43.0


From f413970a372ea3fbd1252a2384e47cdb17b4b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:02 +0000
Subject: [PATCH 38/54] fix: bounds of tracks, empty boxes and feature lists

GetGeometryBounds ignored the coordinates of gx:Track and gx:MultiTrack,
ExpandFromBbox took an empty Bbox for the whole world, and
FeatureList::ComputeBoundingBox, documented to enclose all features,
enclosed only their centers.
---
 src/kml/convenience/feature_list.cc |  5 +----
 src/kml/engine/bbox.h               |  3 +++
 src/kml/engine/location_util.cc     | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/kml/convenience/feature_list.cc b/src/kml/convenience/feature_list.cc
index ba06608..9360f0c 100644
--- a/src/kml/convenience/feature_list.cc
+++ b/src/kml/convenience/feature_list.cc
@@ -149,10 +149,7 @@ void FeatureList::ComputeBoundingBox(Bbox* bbox) const {
   }
   feature_list_t::const_iterator iter;
   for (iter = feature_list_.begin(); iter != feature_list_.end(); ++iter) {
-    double lat, lon;
-    if (kmlengine::GetFeatureLatLon(*iter, &lat, &lon)) {
-      bbox->ExpandLatLon(lat, lon);
-    }
+    kmlengine::GetFeatureBounds(*iter, bbox);
   }
 }
 
diff --git a/src/kml/engine/bbox.h b/src/kml/engine/bbox.h
index 599df6b..52bf86e 100644
--- a/src/kml/engine/bbox.h
+++ b/src/kml/engine/bbox.h
@@ -107,6 +107,9 @@ class Bbox {
 
   // This expands this Bbox to contain the given Bbox.
   void ExpandFromBbox(const Bbox& bbox) {
+    if (bbox.get_north() < bbox.get_south()) {
+      return;  // A default Bbox is empty and has no extent to include.
+    }
     ExpandLatitude(bbox.get_north());
     ExpandLatitude(bbox.get_south());
     ExpandLongitude(bbox.get_east());
diff --git a/src/kml/engine/location_util.cc b/src/kml/engine/location_util.cc
index 1108740..2fe21f8 100644
--- a/src/kml/engine/location_util.cc
+++ b/src/kml/engine/location_util.cc
@@ -35,6 +35,8 @@ using kmldom::ContainerPtr;
 using kmldom::CoordinatesPtr;
 using kmldom::FeaturePtr;
 using kmldom::GeometryPtr;
+using kmldom::GxMultiTrackPtr;
+using kmldom::GxTrackPtr;
 using kmldom::LinearRingPtr;
 using kmldom::LineStringPtr;
 using kmldom::ModelPtr;
@@ -123,6 +125,24 @@ bool GetGeometryBounds(const GeometryPtr& geometry, Bbox* bbox) {
       }
     }
     return has_bounds;
+  } else if (GxTrackPtr track = kmldom::AsGxTrack(geometry)) {
+    size_t size = track->get_gx_coord_array_size();
+    if (bbox) {
+      for (size_t i = 0; i < size; ++i) {
+        const Vec3& vec3 = track->get_gx_coord_array_at(i);
+        bbox->ExpandLatLon(vec3.get_latitude(), vec3.get_longitude());
+      }
+    }
+    return size != 0;
+  } else if (GxMultiTrackPtr multitrack = kmldom::AsGxMultiTrack(geometry)) {
+    bool has_bounds = false;  // Turns true on any gx:Track w/ bounds.
+    size_t size = multitrack->get_gx_track_array_size();
+    for (size_t i = 0; i < size; ++i) {
+      if (GetGeometryBounds(multitrack->get_gx_track_array_at(i), bbox)) {
+        has_bounds = true;
+      }
+    }
+    return has_bounds;
   }
   return false;
 }
-- 
2.43.0


From 5e070383074dfdecaf7fbb337da7a02b1398d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:25 +0000
Subject: [PATCH 39/54] fix: XSD compilation of anonymous types, cycles and
 incomplete schemas

---
 src/kml/xsd/xsd_file.cc           | 23 ++++++++++++++++-------
 src/kml/xsd/xsd_file.h            |  9 +++++----
 src/kml/xsd/xsd_handler.cc        | 26 ++++++++++++--------------
 src/kml/xsd/xsd_handler.h         | 10 +++++++---
 src/kml/xsd/xsd_primitive_type.cc |  4 ++--
 5 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index ac8d184..224f240 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -116,7 +116,9 @@ void XsdFile::FindChildElements(const XsdComplexTypePtr& complex_type,
   for (size_t i = 0; i < sequence_size; ++i) {
     const XsdElementPtr element = complex_type->get_sequence_at(i);
     if (element->is_ref()) {
-       elements->push_back(ResolveRef(element->get_name()));
+      if (const XsdElementPtr resolved = ResolveRef(element->get_name())) {
+        elements->push_back(resolved);
+      }
     } else {
       elements->push_back(element);
     }
@@ -146,7 +148,8 @@ const XsdElementPtr XsdFile::ResolveRef(const string& element_ref) const {
 XsdComplexTypePtr XsdFile::GetBaseType(
     const XsdComplexTypePtr& complex_type) const {
   string type_name;
-  if (!xsd_schema_->SplitNsName(complex_type->get_extension_base(),
+  if (!xsd_schema_ ||
+      !xsd_schema_->SplitNsName(complex_type->get_extension_base(),
                                 &type_name)) {
     return NULL;  // XSD is incomplete.
   }
@@ -159,7 +162,11 @@ bool XsdFile::GetTypeHierarchy(const XsdComplexTypePtr& complex_type,
     return false;
   }
   XsdComplexTypePtr current = complex_type;
+  size_t depth = 0;
   while (current->has_extension_base()) {
+    if (++depth > type_map_.size()) {
+      return false;  // XSD is cyclic.
+    }
     if (XsdComplexTypePtr base = GetBaseType(current)) {
       if (type_hier) {
         type_hier->push_back(base);
@@ -236,11 +243,13 @@ bool XsdFile::SearchTypeHierarchy(const XsdComplexTypePtr& complex_type,
   if (!xsd_schema_) {  // Not much we can do w/o a <xs:schema ... >!
     return false;
   }
-  if (find_type == complex_type) {
-    return true;
-  }
-  if (XsdComplexTypePtr base_type = GetBaseType(complex_type)) {
-    return SearchTypeHierarchy(base_type, find_type);
+  XsdComplexTypePtr current = complex_type;
+  // No acyclic hierarchy is deeper than the number of types.
+  for (size_t i = 0; current && i <= type_map_.size(); ++i) {
+    if (find_type == current) {
+      return true;
+    }
+    current = GetBaseType(current);
   }
   return false;
 }
diff --git a/src/kml/xsd/xsd_file.h b/src/kml/xsd/xsd_file.h
index 99e9e5f..2cb1498 100644
--- a/src/kml/xsd/xsd_file.h
+++ b/src/kml/xsd/xsd_file.h
@@ -80,11 +80,12 @@ class XsdFile {
     type_map_[xsd_type->get_name()] = xsd_type;
   }
 
-  const string& get_target_namespace() const {
-    return xsd_schema_->get_target_namespace();
+  // These return the empty string if there is no complete <xs:schema> info.
+  const string get_target_namespace() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace() : string();
   }
-  const string& get_target_namespace_prefix() const {
-    return xsd_schema_->get_target_namespace_prefix();
+  const string get_target_namespace_prefix() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace_prefix() : string();
   }
 
   // Create an alias.  For example, "AbstractFeatureGroup" == "Feature".
diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 98dc545..27627e1 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -40,22 +40,22 @@ namespace kmlxsd {
 
 // <xs:complexType name="..." abstract="...">
 void XsdHandler::StartComplexType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:complexType> and/or <xs:simpleType>
-    current_type_ = XsdComplexType::Create(attributes);
-  }
+  types_.push(XsdComplexType::Create(attributes));
 }
 
 // </xs:complexType">
 // </xs:simpleType">
 void XsdHandler::EndType() {
-  xsd_file_->add_type(current_type_);
-  current_type_ = NULL;
+  if (const XsdTypePtr type = current_type()) {
+    xsd_file_->add_type(type);
+  }
+  types_.pop();
 }
 
 // <xs:extension base="...">
 void XsdHandler::StartExtension(const Attributes& attributes) {
   if (XsdComplexTypePtr complex_type =
-          XsdComplexType::AsComplexType(current_type_)) {
+          XsdComplexType::AsComplexType(current_type())) {
     string base;
     if (attributes.GetString(kBase, &base)) {
       complex_type->set_extension_base(base);
@@ -65,15 +65,13 @@ void XsdHandler::StartExtension(const Attributes& attributes) {
 
 // <xs:simpleType name="..."/>
 void XsdHandler::StartSimpleType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:simpleType is never nested...
-    current_type_ = XsdSimpleType::Create(attributes);
-  }
+  types_.push(XsdSimpleType::Create(attributes));
 }
 
 // <xs:restriction base="...">
 void XsdHandler::StartRestriction(const Attributes& attributes) {
   if (XsdSimpleTypePtr simple_type =
-          XsdSimpleType::AsSimpleType(current_type_)) {
+          XsdSimpleType::AsSimpleType(current_type())) {
     string base;
     if (attributes.GetString(kBase, &base)) {
       simple_type->set_restriction_base(base);
@@ -84,7 +82,7 @@ void XsdHandler::StartRestriction(const Attributes& attributes) {
 // <xs:enumeration value="...">
 void XsdHandler::StartEnumeration(const Attributes& attributes) {
   if (XsdSimpleTypePtr simple_type =
-          XsdSimpleType::AsSimpleType(current_type_)) {
+          XsdSimpleType::AsSimpleType(current_type())) {
     string value;
     if (attributes.GetString(kValue, &value)) {
       simple_type->add_enumeration(value);
@@ -95,16 +93,16 @@ void XsdHandler::StartEnumeration(const Attributes& attributes) {
 // <xs:element name="..." type="..." default=".."/>
 // <xs:element ref="..." minOccurs="..." maxOccurs="..."/>
 void XsdHandler::StartXsElement(const Attributes& attributes) {
-  XsdElement* element = XsdElement::Create(attributes);
+  XsdElementPtr element = XsdElement::Create(attributes);
   if (!element) {
     return;
   }
 
   // Is this a global element?
-  if (parse_.top() == kSchema) {
+  if (!parse_.empty() && parse_.top() == kSchema) {
     xsd_file_->add_element(element);
   } else if (XsdComplexTypePtr complex_type =
-                 XsdComplexType::AsComplexType(current_type_)) {
+                 XsdComplexType::AsComplexType(current_type())) {
      // Is it a child of <xs:complexType>?
     complex_type->add_element(element);
   }
diff --git a/src/kml/xsd/xsd_handler.h b/src/kml/xsd/xsd_handler.h
index 0dfba03..f9a484c 100644
--- a/src/kml/xsd/xsd_handler.h
+++ b/src/kml/xsd/xsd_handler.h
@@ -51,8 +51,7 @@ class XsdFile;
 class XsdHandler : public kmlbase::ExpatHandler {
  public:
   XsdHandler(XsdFile* xsd_file)
-    : xsd_file_(xsd_file),
-      current_type_(NULL) {
+    : xsd_file_(xsd_file) {
   }
   virtual ~XsdHandler() {}
 
@@ -82,7 +81,12 @@ class XsdHandler : public kmlbase::ExpatHandler {
   void StartEnumeration(const kmlbase::Attributes& attributes);
 
   void EndType();
-  XsdTypePtr current_type_;
+  // The type whose content is being parsed.  This is NULL outside of any type
+  // and within an anonymous type, which is not saved.
+  XsdTypePtr current_type() const {
+    return types_.empty() ? XsdTypePtr() : types_.top();
+  }
+  std::stack<XsdTypePtr> types_;
 
   std::stack<string> parse_;
 };
diff --git a/src/kml/xsd/xsd_primitive_type.cc b/src/kml/xsd/xsd_primitive_type.cc
index 00ce2e5..1ea770e 100644
--- a/src/kml/xsd/xsd_primitive_type.cc
+++ b/src/kml/xsd/xsd_primitive_type.cc
@@ -29,7 +29,7 @@ namespace kmlxsd {
 
 // This exactly matches the XsdPrimitiveType enum.
 static const char* XsdPrimitiveTypeName[] = {
-  NULL,  // XSD_INVALID
+  "",  // XSD_INVALID
   "string",  // 3.2.1
   "boolean",  // 3.2.2
   "decimal",  // 3.2.3
@@ -47,7 +47,7 @@ static const char* XsdPrimitiveTypeName[] = {
   "hexBinary",  // 3.2.15
   "base64Binary",  // 3.2.16
   "anyURI",  // 3.2.17
-  "QNAME",  // 3.2.18
+  "QName",  // 3.2.18
   "NOTATION",  // 3.2.19
   // NOTE: this includes only the types involved in the xsd:int derivation.
   "integer",  // 3.3.13.  Is-a XSD_DECIMAL.
-- 
2.43.0


From 6c48c840778437a6d6b3a9a990d84eddcccc0f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:14 +0000
Subject: [PATCH 40/54] fix: CSV parsing: factory, whole numbers, separators
 and blank lines

---
 src/kml/base/string_util.cc       | 16 +++++++++++-----
 src/kml/convenience/csv_file.cc   |  6 +++++-
 src/kml/convenience/csv_parser.cc |  2 +-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index 516b99e..f865d56 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -64,9 +64,10 @@ void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
   string iter = input;
   size_t separator;
-  while ((separator = iter.find(split_string)) != string::npos) {
+  while (!split_string.empty() &&
+         (separator = iter.find(split_string)) != string::npos) {
     output->push_back(iter.substr(0, separator));
-    iter = iter.substr(separator+1);
+    iter = iter.substr(separator + split_string.size());
   }
   output->push_back(iter);
 }
@@ -168,10 +169,15 @@ bool StringToDouble(const string& number, double* output) {
   if (!IsDecimalDoubleString(number)) {
     return false;
   }
+  // The whole string must be the number, save for any trailing white space.
+  double value;
+  std::istringstream iss(number);
+  iss.imbue(std::locale::classic());
+  if (!(iss >> value) || !(iss >> std::ws).eof()) {
+    return false;
+  }
   if (output) {
-    std::istringstream iss(number);
-    iss.imbue(std::locale::classic());
-    iss >> *output;
+    *output = value;
   }
   return true;
 }
diff --git a/src/kml/convenience/csv_file.cc b/src/kml/convenience/csv_file.cc
index 889bf33..b5accf9 100644
--- a/src/kml/convenience/csv_file.cc
+++ b/src/kml/convenience/csv_file.cc
@@ -72,8 +72,12 @@ void CsvFile::ParseCsvFile(const char* filename) {
   while (csv_file.good()) {
     string csv_line;
     getline(csv_file, csv_line);
+    // Lines may end with CR LF.
+    if (!csv_line.empty() && csv_line[csv_line.size() - 1] == '\r') {
+      csv_line.erase(csv_line.size() - 1);
+    }
     if (csv_line.empty()) {
-      return;
+      continue;
     }
     ParseCsvLine(csv_line);
   }
diff --git a/src/kml/convenience/csv_parser.cc b/src/kml/convenience/csv_parser.cc
index e20434f..340eed2 100644
--- a/src/kml/convenience/csv_parser.cc
+++ b/src/kml/convenience/csv_parser.cc
@@ -82,7 +82,7 @@ CsvParser::CsvParser(kmlbase::CsvSplitter* csv_splitter,
   , feature_id_(npos)
   , style_id_(npos)
   , style_url_base_(kDefaultStyleUrlBase)
-  , kml_factory_(0)
+  , kml_factory_(kmldom::KmlFactory::GetFactory())
 {
 }
 
-- 
2.43.0


From 22096e6260a7661604e61c7ad6b0626d88e2acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:21 +0000
Subject: [PATCH 41/54] fix: regionator keeps regions with data only below,
 closes box outlines, rebases short style references

---
 src/kml/convenience/kml_feature_list_saver.h | 2 +-
 src/kml/regionator/regionator.cc             | 6 ++++--
 src/kml/regionator/regionator_util.cc        | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index ca85d14..040fc37 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -81,7 +81,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
       kmldom::FeaturePtr feature = kmldom::AsFeature(child);
       if (!style_base_.empty() && feature->has_styleurl()) {
         const string& styleurl = feature->get_styleurl();
-        if (styleurl.size() > 2 && styleurl[0] == '#') {
+        if (styleurl.size() > 1 && styleurl[0] == '#') {
           feature->set_styleurl(style_base_ + styleurl);
         }
       }
diff --git a/src/kml/regionator/regionator.cc b/src/kml/regionator/regionator.cc
index 82d1b5a..01f5d40 100644
--- a/src/kml/regionator/regionator.cc
+++ b/src/kml/regionator/regionator.cc
@@ -127,10 +127,12 @@ bool Regionator::_Regionate(const RegionPtr& region) {
 
   // Ask the RegionHandler for the Feature for this region.
   FeaturePtr feature = rhandler_.GetFeature(region);
-  if (feature == NULL) {
+  if (feature == NULL && children.empty()) {
     return false;  // This region has no data.
   }
-  document->add_feature(feature);
+  if (feature) {
+    document->add_feature(feature);
+  }
 
   // Supply the root node of the RbNL hierarchy with a <LookAt> to the natural
   // bounds of the data if such bounds were supplied using SetNaturalRegion().
diff --git a/src/kml/regionator/regionator_util.cc b/src/kml/regionator/regionator_util.cc
index 48bb0c0..460ddd0 100644
--- a/src/kml/regionator/regionator_util.cc
+++ b/src/kml/regionator/regionator_util.cc
@@ -139,7 +139,7 @@ PlacemarkPtr CreateLineStringBox(const string& name, const RegionPtr& region) {
     coordinates->add_latlng(north, east);
     coordinates->add_latlng(south, east);
     coordinates->add_latlng(south, west);
-    coordinates->add_latlng(south, west);
+    coordinates->add_latlng(north, west);
     LineStringPtr linestring = factory->CreateLineString();
     linestring->set_coordinates(coordinates);
     linestring->set_tessellate(true);
-- 
2.43.0


From 558a160cf459198d95714d4e3a11de5fa9d5ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:17 +0000
Subject: [PATCH 42/54] fix: conversion of short colors, booleans, blank
 numbers, enum ids and date-times

---
 src/kml/base/color32.h      |  7 ++++---
 src/kml/base/date_time.cc   | 34 +++++++++++++++++++++++++++++-----
 src/kml/base/string_util.cc | 23 ++++++++++++-----------
 src/kml/dom/xsd.cc          |  7 ++++++-
 4 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/kml/base/color32.h b/src/kml/base/color32.h
index dcdf8d7..9aa1fc3 100644
--- a/src/kml/base/color32.h
+++ b/src/kml/base/color32.h
@@ -131,13 +131,14 @@ class Color32 {
     // character, skip it. (Google Earth supports this usage, despite its not
     // being common practice.)
     size_t offset = 0;
-    while (isspace(color_abgr[offset])) {
+    while (offset < color_abgr.size() && isspace(color_abgr[offset])) {
       offset ++;
     }
-    if (color_abgr.size() > 0 && color_abgr[offset] == '#') {
+    if (offset < color_abgr.size() && color_abgr[offset] == '#') {
       offset ++;
     }
-    size_t length = color_abgr.size() >= 8 + offset ? 8 : color_abgr.size();
+    size_t length =
+        color_abgr.size() >= 8 + offset ? 8 : color_abgr.size() - offset;
     for(size_t i = offset; i < length + offset; ++i) {
       out = out * 16;
       if (color_abgr[i] >= '0' && color_abgr[i] <= '9') {
diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index 01dbfc4..c7c3d4b 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -27,6 +27,7 @@
 
 #include "kml/base/date_time.h"
 #include "boost/scoped_ptr.hpp"
+#include <ctype.h>
 #include <stdlib.h>
 
 #ifdef _WIN32
@@ -59,17 +60,20 @@ static bool is_leap(int year) {
   return (year % 4) == 0 && ((year % 100) != 0 || (year % 400) == 0);
 }
 
+static const int ndays[2][12] ={
+  {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31},
+  {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}};
+
 time_t DateTime::GetTimeT() const {
   // Always return time as GMT; disregard local time, unlike  mktime(3).
   // Faster (and less "obviously correct") implementations are possible.
-  static const unsigned ndays[2][12] ={
-    {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31},
-    {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}};
   time_t res = 0;
 
   // This and is_leap() base from 1970, the epoch of a time_t.
   for (int year = 70; year < tm_.tm_year; ++year)
     res += is_leap(year) ? 366 : 365;
+  for (int year = 69; year >= tm_.tm_year; --year)
+    res -= is_leap(year) ? 366 : 365;
 
   for (int month = 0; month < tm_.tm_mon; ++month)
     res += ndays[is_leap(tm_.tm_year)][month];
@@ -96,7 +100,12 @@ string DateTime::GetXsdTime() const {
 }
 
 string DateTime::GetXsdDate() const {
-  return DoStrftime<11>("%Y-%m-%d");
+  // Not all implementations of %Y pad a year before 1000 with zeros.
+  string date = DoStrftime<11>("%Y-%m-%d");
+  if (date.size() < 10) {
+    date.insert(0, 10 - date.size(), '0');
+  }
+  return date;
 }
 
 string DateTime::GetXsdDateTime() const {
@@ -113,7 +122,22 @@ DateTime::DateTime() {
 // private
 bool DateTime::ParseXsdDateTime(const string& xsd_date_time) {
   // TODO: strptime on win32?
-  return strptime(xsd_date_time.c_str(), "%Y-%m-%dT%H:%M:%SZ", &tm_) != NULL;
+  // strptime() accepts white space and fewer digits than an xsd:dateTime has,
+  // as well as anything at all afterwards.
+  const string pattern("0000-00-00T00:00:00Z");
+  if (xsd_date_time.size() != pattern.size()) {
+    return false;
+  }
+  for (size_t i = 0; i < pattern.size(); ++i) {
+    if (pattern[i] == '0' ? !isdigit(xsd_date_time[i])
+                          : xsd_date_time[i] != pattern[i]) {
+      return false;
+    }
+  }
+  if (!strptime(xsd_date_time.c_str(), "%Y-%m-%dT%H:%M:%SZ", &tm_)) {
+    return false;
+  }
+  return tm_.tm_mday <= ndays[is_leap(tm_.tm_year)][tm_.tm_mon];
 }
 
 }  // end namespace kmlbase
diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index f865d56..64ea316 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -75,9 +75,13 @@ void SplitStringUsing(const string& input, const string& split_string,
 template<>
 void FromString(const string& str, bool* out) {
   if (out) {
-    size_t skip_ws = SkipLeadingWhitespaceString(str);
-    *out = (str.compare(skip_ws, 4, "true") == 0)
-            || (str.compare(skip_ws, 1, "1") == 0);
+    const size_t begin = SkipLeadingWhitespaceString(str);
+    size_t end = str.size();
+    while (end > begin && isspace(str[end - 1])) {
+      --end;
+    }
+    const string value = str.substr(begin, end - begin);
+    *out = value == "true" || value == "1";
   }
 }
 
@@ -85,6 +89,7 @@ void FromString(const string& str, bool* out) {
 template<>
 void FromString(const string& str, double* out) {
   if (out) {
+    *out = 0;  // An extraction from only white space would not set this.
     std::istringstream iss(str.c_str());
     iss.imbue(std::locale::classic());
     iss >> *out;
@@ -94,14 +99,10 @@ void FromString(const string& str, double* out) {
 template<>
 void FromString(const string& str, int* out) {
   if (out) {
-    if( str.empty()) {
-      *out = 0;
-    }
-    else {
-      std::istringstream iss(str.c_str());
-      iss.imbue(std::locale::classic());
-      iss >> *out;
-    }
+    *out = 0;  // An extraction from only white space would not set this.
+    std::istringstream iss(str.c_str());
+    iss.imbue(std::locale::classic());
+    iss >> *out;
   }
 }
 
diff --git a/src/kml/dom/xsd.cc b/src/kml/dom/xsd.cc
index 628ddfc..ab78d53 100644
--- a/src/kml/dom/xsd.cc
+++ b/src/kml/dom/xsd.cc
@@ -108,7 +108,12 @@ const int size = sizeof(kKml22Enums)/sizeof(XsdSimpleTypeEnum);
 
   for (int i = 0; i < size; ++i) {
     if (kKml22Enums[i].type_id == type_id) {
-      return kKml22Enums[i].enum_value_list[enum_id];
+      const char** enum_value_item = kKml22Enums[i].enum_value_list;
+      while (*enum_value_item && enum_id > 0) {
+        ++enum_value_item;
+        --enum_id;
+      }
+      return *enum_value_item ? *enum_value_item : string();
     }
   }
   return string();
-- 
2.43.0


From c04c7e348db94ce050733360be2b0d5274e53714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:18 +0000
Subject: [PATCH 43/54] fix: destination points at and near the poles and
 vertical elevations

---
 src/kml/base/math_util.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/kml/base/math_util.cc b/src/kml/base/math_util.cc
index 5cbc6d9..9726559 100644
--- a/src/kml/base/math_util.cc
+++ b/src/kml/base/math_util.cc
@@ -65,7 +65,7 @@ double ElevationBetweenPoints(double lat1, double lng1, double alt1,
   // Naive implementation, accurate only over short distances.
   // TODO: see header comment about curvature.
   double distance = DistanceBetweenPoints(lat1, lng1, lat2, lng2);
-  return RadToDeg(atan((alt2 - alt1) / distance));
+  return RadToDeg(atan2(alt2 - alt1, distance));
 }
 
 double GroundDistanceFromRangeAndElevation(double range, double elevation) {
@@ -82,10 +82,15 @@ Vec3 LatLngOnRadialFromPoint(double lat, double lng,
   const double lng_r = DegToRad(lng);
   const double distance_r = MetersToRadians(distance);
   const double radial_r = DegToRad(radial);
-  const double radial_lat = asin(sin(lat_r) * cos(distance_r) +
-                    cos(lat_r) * sin(distance_r) * cos(radial_r));
-  const double delta_lng = atan2(sin(radial_r) * sin(distance_r) * cos(lat_r),
-                           cos(distance_r) - sin(lat_r) * sin(radial_lat));
+  // The components of the destination along the axis, away from the axis in
+  // the plane of the meridian of the center point, and east of that plane.
+  const double up = sin(lat_r) * cos(distance_r) +
+                    cos(lat_r) * sin(distance_r) * cos(radial_r);
+  const double out = cos(lat_r) * cos(distance_r) -
+                     sin(lat_r) * sin(distance_r) * cos(radial_r);
+  const double east = sin(radial_r) * sin(distance_r);
+  const double radial_lat = atan2(up, sqrt(out * out + east * east));
+  const double delta_lng = atan2(east, out);
   const double radial_lng = fmod(lng_r + delta_lng + M_PI, 2 * M_PI) - M_PI;
   return Vec3(RadToDeg(radial_lng), RadToDeg(radial_lat));
 }
-- 
2.43.0


From 6367d93e3ca19861969f336d07bb6ed4d70dd35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:18 +0000
Subject: [PATCH 44/54] fix: a circle of N segments goes all the way round

---
 src/kml/convenience/convenience.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/convenience.cc b/src/kml/convenience/convenience.cc
index 6aa8918..2a60bc2 100644
--- a/src/kml/convenience/convenience.cc
+++ b/src/kml/convenience/convenience.cc
@@ -119,7 +119,7 @@ CoordinatesPtr CreateCoordinatesCircle(double lat, double lng,
   CoordinatesPtr coords = KmlFactory::GetFactory()->CreateCoordinates();
   for (size_t i = 0; i < segments; ++i) {
     coords->add_vec3(kmlbase::LatLngOnRadialFromPoint(
-        lat, lng, radius, static_cast<double>(i)));
+        lat, lng, radius, i * 360.0 / segments));
   }
   return coords;
 }
-- 
2.43.0


From 99d44ea4d1364abb0705e3d2f758e9bcfb979446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:18 +0000
Subject: [PATCH 45/54] fix: cloning an entry's feature leaves the entry alone

---
 src/kml/convenience/atom_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 4baa5a3..d83c9a1 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -160,7 +160,8 @@ FeaturePtr AtomUtil::GetEntryFeature(const AtomEntryPtr& entry) {
 
 // static
 FeaturePtr AtomUtil::CloneEntryFeature(const AtomEntryPtr& entry) {
-  if (FeaturePtr feature = GetEntryFeature(entry)) {
+  if (FeaturePtr feature = kmldom::AsFeature(
+          kmlengine::Clone(GetEntryFeature(entry)))) {
     string href;
     if (FindRelUrl(*entry.get(), "self", &href)) {
       AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
-- 
2.43.0


From 987161b605e1fdaa04f229fdb4f0894feab2a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:18 +0000
Subject: [PATCH 46/54] fix: a GPX track point without elevation has none

---
 src/kml/convenience/gpx_trk_pt_handler.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kml/convenience/gpx_trk_pt_handler.h b/src/kml/convenience/gpx_trk_pt_handler.h
index 2e7fdd6..3db9a2e 100644
--- a/src/kml/convenience/gpx_trk_pt_handler.h
+++ b/src/kml/convenience/gpx_trk_pt_handler.h
@@ -64,6 +64,7 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
       // <trkpt lat="-33.911973070" lon="18.422974152">
       // If both lat and lon exist and are sane doubles create a Vec3 for
       // the point.
+      vec3_.reset();
       boost::scoped_ptr<kmlbase::Attributes> attributes(
           kmlbase::Attributes::Create(atts));
       if (attributes.get()) {
-- 
2.43.0


From 9fc89deeb9df03e219aff0e474653bdd2233a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:36 +0000
Subject: [PATCH 47/54] fix: declare the namespaces of simple elements as well

---
 src/kml/engine/find_xml_namespaces.cc | 36 +++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/kml/engine/find_xml_namespaces.cc b/src/kml/engine/find_xml_namespaces.cc
index 0500e3a..83b2625 100644
--- a/src/kml/engine/find_xml_namespaces.cc
+++ b/src/kml/engine/find_xml_namespaces.cc
@@ -28,6 +28,7 @@
 #include "kml/base/attributes.h"
 #include "kml/base/xml_namespaces.h"
 #include "kml/dom/serializer.h"
+#include "kml/dom/xsd.h"
 
 using kmlbase::Attributes;
 using kmldom::ElementPtr;
@@ -43,16 +44,38 @@ class XmlNamespaceFinder : public Serializer {
     : xmlns_id_set_(xmlns_id_set) {
   }
 
-  // This is the only Serializer virtual method implemented
-  // in ElementFinder.  As such only complex elements are found.
-  virtual void SaveElement(const ElementPtr& element) {
-    xmlns_id_set_->insert(element->get_xmlns());
+  // This is called for each complex element.
+  virtual void BeginById(int type_id, const Attributes& attributes) {
+    InsertPrefixOf(type_id);
+  }
 
-    // Call Serializer to recurse.
-    Serializer::SaveElement(element);
+  // These are called for each simple element.
+  virtual void SaveStringFieldById(int type_id, string value) {
+    InsertPrefixOf(type_id);
+  }
+  virtual void SaveColor(int type_id, const kmlbase::Color32& color) {
+    InsertPrefixOf(type_id);
   }
 
  private:
+  // All elements in namespaces other than KML are named with a prefix.
+  void InsertPrefixOf(int type_id) {
+    const string name = xsd_.ElementName(type_id);
+    const size_t colon = name.find(':');
+    if (colon == string::npos) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_KML22);
+      return;
+    }
+    for (int id = kmlbase::XMLNS_NONE; id <= kmlbase::XMLNS_XSI; ++id) {
+      const kmlbase::XmlnsId xmlns_id = static_cast<kmlbase::XmlnsId>(id);
+      string prefix;
+      if (kmlbase::FindXmlNamespaceAndPrefix(xmlns_id, &prefix, NULL) &&
+          name.compare(0, colon, prefix) == 0) {
+        xmlns_id_set_->insert(xmlns_id);
+      }
+    }
+  }
+
   XmlnsIdSet* xmlns_id_set_;
 };
 
@@ -61,7 +84,6 @@ void FindXmlNamespaces(const ElementPtr& element,
   if (element && xmlns_attributes) {
     XmlnsIdSet xmlns_id_set;
     XmlNamespaceFinder xml_namespace_finder(&xmlns_id_set);
-    xmlns_id_set.insert(element->get_xmlns());
     element->Serialize(xml_namespace_finder);
     XmlnsIdSet::const_iterator iter = xmlns_id_set.begin();
     for (; iter != xmlns_id_set.end(); ++iter) {
-- 
2.43.0


From daabc1f84c41512516bcb5e7f54fbbea3b44bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:36 +0000
Subject: [PATCH 48/54] fix: fields of an old schema belong to its placemarks
 only

---
 src/kml/dom/kml_handler.cc | 43 +++++++++++++++++++++++++++-----------
 src/kml/dom/kml_handler.h  |  6 +++++-
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index b64d8c9..26f8018 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -86,6 +86,7 @@ KmlHandler::KmlHandler(parser_observer_vector_t& observers)
     in_description_(0),
     nesting_depth_(0),
     in_old_schema_placemark_(false),
+    in_old_schema_(false),
     observers_(observers) {
 }
 
@@ -144,7 +145,10 @@ void KmlHandler::StartElement(const string& name,
   // multiple Schema elements appearing at the top of the file, the last
   // one wins.
   if (name.length() == 6 && name == "Schema") {
-    FindOldSchemaParentName(attrs, &old_schema_name_);
+    in_old_schema_ = FindOldSchemaParentName(attrs, &old_schema_name_);
+    if (in_old_schema_) {
+      simplefield_name_vec_.clear();
+    }
   }
 
   // Push a string onto the stack we'll use to manage the gathering of
@@ -158,7 +162,9 @@ void KmlHandler::StartElement(const string& name,
     static_cast<KmlDomType>(Xsd::GetSchema()->ElementId(name));
 
   // If we're parsing old Schema usage, we force the creation of a Placemark.
-  if (!old_schema_name_.empty() && name == old_schema_name_) {
+  const bool is_old_schema_placemark =
+      !old_schema_name_.empty() && name == old_schema_name_;
+  if (is_old_schema_placemark) {
     // Treat this as a Placemark.
     type_id = Type_Placemark;
   }
@@ -176,6 +182,11 @@ void KmlHandler::StartElement(const string& name,
       }
     }
 
+    if (is_old_schema_placemark) {
+      old_schema_placemark_ = element;
+      simpledata_vec_.clear();
+    }
+
     // We parse attributes only if StartElement received any.
     if (!attrs.empty()) {
       // Element::ParseAttributes takes ownership of the created Attributes.
@@ -183,7 +194,8 @@ void KmlHandler::StartElement(const string& name,
     }
   } else if (xsd_type == XSD_SIMPLE_TYPE) {
     element = kml_factory_.CreateFieldById(type_id);
-  } else if (xsd_type == XSD_UNKNOWN && !old_schema_name_.empty()) {
+  } else if (xsd_type == XSD_UNKNOWN && old_schema_placemark_ &&
+             !stack_.empty() && stack_.top() == old_schema_placemark_) {
     // We might be parsing one of the children of the old schema usage.
     in_old_schema_placemark_ = ParseOldSchemaChild(name, simplefield_name_vec_,
                                                    &simpledata_vec_);
@@ -307,12 +319,16 @@ void KmlHandler::EndElement(const string& name) {
   // Handle the case of reaching the closing of an old-style </Schema>.
   if (!old_schema_name_.empty()) {
     if (name.length() == 6 && name == "Schema") {
-      HandleOldSchemaEndElement(AsSchema(child), old_schema_name_,
-                                &simplefield_name_vec_);
-    } else if (name == old_schema_name_) {
+      if (in_old_schema_) {
+        HandleOldSchemaEndElement(AsSchema(child), old_schema_name_,
+                                  &simplefield_name_vec_);
+        in_old_schema_ = false;
+      }
+    } else if (old_schema_placemark_ && child == old_schema_placemark_) {
       // Or that of its Placemark substitute.
       HandleOldSchemaParentEndElement(AsPlacemark(child), old_schema_name_,
                                       kml_factory_, simpledata_vec_);
+      old_schema_placemark_ = NULL;
     }
   }
 
@@ -414,13 +430,12 @@ void KmlHandler::InsertUnknownEndElement(const string& name) {
 }
 
 // Static, private.
-void KmlHandler::FindOldSchemaParentName(const StringVector& attrs,
+bool KmlHandler::FindOldSchemaParentName(const StringVector& attrs,
                                          string* old_schema_name) {
   boost::scoped_ptr<Attributes> schema_attrs(Attributes::Create(attrs));
-  if (schema_attrs.get() && old_schema_name &&
-      schema_attrs->FindValue("parent", NULL)) {
-    schema_attrs->FindValue("name", old_schema_name);
-  }
+  return schema_attrs.get() && old_schema_name &&
+      schema_attrs->FindValue("parent", NULL) &&
+      schema_attrs->FindValue("name", old_schema_name);
 }
 
 // Static, private.
@@ -483,7 +498,11 @@ void KmlHandler::HandleOldSchemaParentEndElement(
   // element. Take the SimpleData elements we've been creating from its
   // children and hand them to an ExtendedData, then give that to the
   // parent placemark.
-  ExtendedDataPtr extendeddata = kml_factory.CreateExtendedData();
+  ExtendedDataPtr extendeddata =
+      AsExtendedData(placemark->get_extendeddata());
+  if (!extendeddata) {
+    extendeddata = kml_factory.CreateExtendedData();
+  }
   SchemaDataPtr schemadata = kml_factory.CreateSchemaData();
   schemadata->set_schemaurl(old_schema_name + "_id");
   std::vector<SimpleDataPtr>::const_iterator itr =
diff --git a/src/kml/dom/kml_handler.h b/src/kml/dom/kml_handler.h
index 95fde30..81c81cb 100644
--- a/src/kml/dom/kml_handler.h
+++ b/src/kml/dom/kml_handler.h
@@ -119,7 +119,11 @@ private:
   // usage. Instead of creating these by default, we could move them into
   // a separate class created only when needed.
   bool in_old_schema_placemark_;
+  // True within a <Schema parent="..."> element.
+  bool in_old_schema_;
   string old_schema_name_;
+  // The placemark substitute being parsed, if any.
+  ElementPtr old_schema_placemark_;
   kmlbase::StringVector simplefield_name_vec_;
   std::vector<SimpleDataPtr> simpledata_vec_;
 
@@ -146,7 +150,7 @@ private:
   // Looks in attrs to find the attributes of an old KML 2.0/2.1
   // <Schema parent="Placemark" name="..."> element. Writes the value of the
   // name attribute to old_schema_name.
-  static void FindOldSchemaParentName(const kmlbase::StringVector& attrs,
+  static bool FindOldSchemaParentName(const kmlbase::StringVector& attrs,
                                       string* old_schema_name);
 
   // Returns true if name matches the name of a child declared in an
-- 
2.43.0


From 5e186a2019f5252b9fa6d29f35989f65b1dd90d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:40 +0000
Subject: [PATCH 49/54] fix: Attributes::Create of an odd-sized vector threw
 instead of ignoring the incomplete pair

---
 src/kml/base/attributes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 28dc995..ce68940 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -62,7 +62,7 @@ bool Attributes::Parse(const char** attrs) {
 
 bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   for (unsigned int i = 0; i < attrs.size() ; i += 2) {
-    if (attrs.size() - i < 1)
+    if (attrs.size() - i < 2)
       break;
     string attr_name = attrs.at(i);
     string attr_val = attrs.at(i+1);
-- 
2.43.0


From 004dac44a2555211238c32d6f67f6518f8ef40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:40 +0000
Subject: [PATCH 50/54] fix: HttpClient::Login cut the last character of a
 token not followed by exactly one newline

---
 src/kml/convenience/http_client.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/http_client.cc b/src/kml/convenience/http_client.cc
index f7fafa6..16d068b 100644
--- a/src/kml/convenience/http_client.cc
+++ b/src/kml/convenience/http_client.cc
@@ -97,7 +97,7 @@ bool HttpClient::Login(const string& service_name,
   }
   const string token = response.substr(auth_offset + kAuth.size());
 
-  auth_token_ = token.substr(0, token.size() - 1);  // remove trailing "\n"
+  auth_token_ = token.substr(0, token.find('\n'));  // the rest of this line
 
   // Attach Authorization header to every subsequent request
   PushHeader("Authorization", "GoogleLogin auth=" + auth_token_, &headers_);
-- 
2.43.0


From 3655cba589f3e936f9e3e96fe5c43504f47696b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:40 +0000
Subject: [PATCH 51/54] fix: GetGdResourceId crashed on the optional NULL
 result

---
 src/kml/convenience/atom_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index d83c9a1..be10f03 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -252,7 +252,9 @@ bool AtomUtil::GetGdResourceId(const kmldom::AtomEntryPtr& entry,
     if (HackParseElement(entry->get_unknown_elements_array_at(i), &tag,
                          &content) &&
         tag == "resourceId") {
-      *resource_id = content;
+      if (resource_id) {
+        *resource_id = content;
+      }
       return true;
     }
   }
-- 
2.43.0


From 80af71025446340a9416b2fb752411b91b49b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:40 +0000
Subject: [PATCH 52/54] fix: AddFeature crashed on a feature with duplicate ids
 and pages linked in a loop were followed forever

---
 src/kml/convenience/google_maps_data.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kml/convenience/google_maps_data.cc b/src/kml/convenience/google_maps_data.cc
index aaa5739..57ccdf2 100644
--- a/src/kml/convenience/google_maps_data.cc
+++ b/src/kml/convenience/google_maps_data.cc
@@ -27,6 +27,7 @@
 
 #include "kml/convenience/google_maps_data.h"
 
+#include <set>
 #include <vector>
 #include "kml/base/mimetypes.h"
 #include "kml/base/string_util.h"
@@ -177,9 +178,16 @@ kmldom::DocumentPtr GoogleMapsData::CreateDocumentOfMapFeatures(
       kmldom::KmlFactory::GetFactory()->CreateDocument();
   // TODO: set <atom:link>
 
+  // Feed pages might be linked in a loop: follow each "next" link only once.
+  std::set<string> next_urls;
+  string next_url;
   kmldom::AtomFeedPtr this_feed = feature_feed;
   do {
     GetMapKml(this_feed, document);
+    if (AtomUtil::FindRelUrl(*this_feed, "next", &next_url) &&
+        !next_urls.insert(next_url).second) {
+      break;
+    }
   } while ((this_feed = AtomUtil::GetNextFeed(this_feed, *http_client_)));
 
   return document;
@@ -229,6 +237,9 @@ bool GoogleMapsData::AddFeature(const string& feature_feed_post_uri,
   // headers.
   kmlengine::KmlFilePtr kml_file =
       kmlengine::KmlFile::CreateFromImport(entry);
+  if (!kml_file.get()) {
+    return false;
+  }
   string post_data;
   kml_file->SerializeToString(&post_data);
 
-- 
2.43.0


From 84c31f9c2b0a677eb2b1481d6ab1fb42702ad6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:13 +0000
Subject: [PATCH 53/54] fix: an element that outlives its parent no longer
 refers to the freed parent

---
 src/kml/base/xml_element.h | 39 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/xml_element.h b/src/kml/base/xml_element.h
index f631be2..7785bd1 100644
--- a/src/kml/base/xml_element.h
+++ b/src/kml/base/xml_element.h
@@ -82,7 +82,17 @@ class XmlElement : public Referent {
 
  protected:
   // This is an abstract base class and is never created directly.
-  XmlElement() : xmlns_id_(XMLNS_NONE), parent_(NULL), xml_file_(NULL) {}
+  XmlElement()
+      : xmlns_id_(XMLNS_NONE), parent_(NULL), xml_file_(NULL),
+        first_child_(NULL), previous_(NULL), next_(NULL) {}
+
+  // A child may outlive its parent.  Such a child no longer has a parent.
+  virtual ~XmlElement() {
+    while (first_child_) {
+      first_child_->ClearParent();
+    }
+    ClearParent();
+  }
 
   void set_xmlns(XmlnsId xmlns_id) {
     xmlns_id_ = xmlns_id;
@@ -94,15 +104,40 @@ class XmlElement : public Referent {
   bool SetParent(const XmlElementPtr& parent) {
     if (!parent_ && parent && InSameXmlFile(parent)) {
       parent_ = parent.get();
+      next_ = parent_->first_child_;
+      if (next_) {
+        next_->previous_ = this;
+      }
+      parent_->first_child_ = this;
       return true;
     }
     return false;
   }
 
  private:
+  void ClearParent() {
+    if (!parent_) {
+      return;
+    }
+    if (previous_) {
+      previous_->next_ = next_;
+    } else {
+      parent_->first_child_ = next_;
+    }
+    if (next_) {
+      next_->previous_ = previous_;
+    }
+    parent_ = previous_ = next_ = NULL;
+  }
+
   XmlnsId xmlns_id_;
-  const XmlElement* parent_;  // Can't ref count due to circularity.
+  XmlElement* parent_;  // Can't ref count due to circularity.
   const XmlFile* xml_file_;
+  // Every element with a given parent is in that parent's list such that the
+  // parent can be cleared when it goes away.  The list is not ordered.
+  XmlElement* first_child_;
+  XmlElement* previous_;
+  XmlElement* next_;
   LIBKML_DISALLOW_EVIL_CONSTRUCTORS(XmlElement);
 };
 
-- 
2.43.0


From 61c84d56b6cee50ad094292856755cdb91a57981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:29 +0000
Subject: [PATCH 54/54] fix: kmlDomTypeToString names every type, also those of
 gx: elements

---
 src/kml/dom/kml22.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/kml/dom/kml22.h b/src/kml/dom/kml22.h
index fa005e7..56e431d 100644
--- a/src/kml/dom/kml22.h
+++ b/src/kml/dom/kml22.h
@@ -482,19 +482,31 @@ typedef enum {
      "Type_GxAnimatedUpdate",
      "Type_GxFlyTo",
      "Type_GxLatLonQuad",
+     "Type_GxMultiTrack",
      "Type_GxPlaylist",
+     "Type_GxSimpleArrayData",
+     "Type_GxSimpleArrayField",
      "Type_GxSoundCue",
      "Type_GxTimeSpan",
      "Type_GxTimeStamp",
      "Type_GxTour",
      "Type_GxTourControl",
+     "Type_GxTrack",
      "Type_GxWait",
 
      "Type_GxAltitudeMode",
+     "Type_GxAngles",
      "Type_GxBalloonVisibility",
+     "Type_GxCoord",
      "Type_GxDuration",
      "Type_GxFlyToMode",
+     "Type_GxH",
+     "Type_GxInterpolate",
      "Type_GxPlayMode",
+     "Type_GxValue",
+     "Type_GxW",
+     "Type_GxX",
+     "Type_GxY",
 
      "Type_Invalid"
    };
-- 
2.43.0

