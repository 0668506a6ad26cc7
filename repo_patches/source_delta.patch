From 1d7d7319db5a8ad71bba484fb30af8094e760c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:51 +0000
Subject: [PATCH 01/33] fix: report object deserialization failure even if a
 later member succeeds

---
 include/persistence/deserialize_object.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index f18fb5f..14addbe 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -5,6 +5,7 @@
 #include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/traits.hpp"
+#include "detail/unlikely.hpp"
 #include <optional>
 
 namespace persistence
@@ -37,7 +38,10 @@ namespace persistence
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, value, value_context);
+                PERSISTENCE_IF_UNLIKELY(!deserialize<Exception>(it->value, value, value_context)) {
+                    result = false;
+                    return *this;
+                }
                 member.ref(object) = std::move(value);
             } else {
                 member.ref(object) = std::nullopt;
@@ -53,7 +57,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
                 return *this;
             } else {
                 if constexpr (Exception) {
@@ -76,7 +80,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
             }
             return *this;
         }
-- 
2.43.0


From 22db1dfcff12e88a2161034dba7a204159ae5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:51 +0000
Subject: [PATCH 02/33] fix: fail object serialization to DOM when a member
 cannot be serialized

---
 include/persistence/serialize_object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 28cd200..df3c2f7 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -63,6 +63,7 @@ namespace persistence
             rapidjson::Value member_json;
             SerializerContext member_context(context, Segment(name));
             PERSISTENCE_IF_UNLIKELY(!serialize(ref, member_json, member_context)) {
+                result = false;
                 return *this;
             }
 
-- 
2.43.0


From 1265cd482bd71a907626fc6a8352d5143f907a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:51 +0000
Subject: [PATCH 03/33] fix: leave the handler of a string enumeration when its
 value has been parsed

---
 include/persistence/parse_enum.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index 4195764..a7b372a 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -98,6 +98,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
@@ -123,6 +124,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
-- 
2.43.0


From f08c1cbba4ccd6fe59aee80ec411af96d174cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:51 +0000
Subject: [PATCH 04/33] fix: include the element index in back-reference paths
 that cross a set

---
 include/persistence/serialize_set.hpp | 2 +-
 include/persistence/write_set.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_set.hpp b/include/persistence/serialize_set.hpp
index d846120..fb8839a 100644
--- a/include/persistence/serialize_set.hpp
+++ b/include/persistence/serialize_set.hpp
@@ -19,7 +19,7 @@ namespace persistence
             for (auto&& item : container) {
                 rapidjson::Value item_json;
                 SerializerContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, item_context)) {
                     return false;
                 }
                 json.PushBack(item_json, context.global().allocator());
diff --git a/include/persistence/write_set.hpp b/include/persistence/write_set.hpp
index 5e891f9..00fa22e 100644
--- a/include/persistence/write_set.hpp
+++ b/include/persistence/write_set.hpp
@@ -17,7 +17,7 @@ namespace persistence
             std::size_t k = 0;
             for (const auto& item : container) {
                 WriterContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                     return false;
                 }
                 ++k;
-- 
2.43.0


From 2ae13542ee376ebd5bc01be359a8215b9bdef0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:51 +0000
Subject: [PATCH 05/33] fix: escape property names in JSON pointer paths as per
 RFC 6901

---
 include/persistence/detail/path.hpp    | 11 ++++++++++-
 include/persistence/detail/segment.hpp |  7 ++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 346a60e..73d6f56 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -24,7 +24,16 @@ namespace persistence
             for (auto&& it = segments.rbegin(); it != segments.rend(); ++it) {
                 path.push_back('/');
                 if (it->is_named()) {
-                    path.append(it->name);
+                    // escape special characters as per RFC 6901
+                    for (char c : it->name) {
+                        if (c == '~') {
+                            path.append("~0");
+                        } else if (c == '/') {
+                            path.append("~1");
+                        } else {
+                            path.push_back(c);
+                        }
+                    }
                 } else {
                     // increase buffer by number of characters required to represent largest integer in decimal digits
                     constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;
diff --git a/include/persistence/detail/segment.hpp b/include/persistence/detail/segment.hpp
index 2b32e07..3f300f0 100644
--- a/include/persistence/detail/segment.hpp
+++ b/include/persistence/detail/segment.hpp
@@ -12,17 +12,18 @@ namespace persistence
     struct Segment
     {
         Segment() = default;
-        Segment(const std::string_view& name) : name(name) {}
+        Segment(const std::string_view& name) : name(name), named(true) {}
         Segment(std::size_t index) : index(index) {}
 
         std::string_view name;
         std::size_t index = 0;
+        bool named = false;
 
         /** True for object property access. */
-        bool is_named() const { return name.size() > 0; }
+        bool is_named() const { return named; }
 
         /** True for array index access. */
-        bool is_indexed() const { return name.size() == 0; }
+        bool is_indexed() const { return !named; }
     };
 
     using Segments = std::vector<Segment>;
-- 
2.43.0


From 00bb5a9064c979cade575dd53b999065cec9ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:51 +0000
Subject: [PATCH 06/33] fix: keep NUL characters in keys when deserializing
 dictionaries

---
 include/persistence/deserialize_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_map.hpp b/include/persistence/deserialize_map.hpp
index 36cd813..e04a171 100644
--- a/include/persistence/deserialize_map.hpp
+++ b/include/persistence/deserialize_map.hpp
@@ -23,11 +23,12 @@ namespace persistence
             value.clear();
             for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
                 item_type item;
-                DeserializerContext item_context(context, Segment(it->name.GetString()));
+                std::string_view name(it->name.GetString(), it->name.GetStringLength());
+                DeserializerContext item_context(context, Segment(name));
                 if (!deserialize<Exception>(it->value, item, item_context)) {
                     return false;
                 }
-                value[it->name.GetString()] = std::move(item);
+                value[std::string(name)] = std::move(item);
             }
             return true;
         }
-- 
2.43.0


From 2d897a1f35835ecb2fbd6cb453b1294e4460157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:20 +0000
Subject: [PATCH 07/33] fix: reject malformed and unresolved back-references
 instead of asserting or ignoring them

---
 include/persistence/deserialize_pointer.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index e3f7279..a448b77 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/unlikely.hpp"
 #include <rapidjson/pointer.h>
@@ -40,15 +41,22 @@ namespace persistence
             if (json.IsObject()) {
                 auto&& it = json.FindMember("$ref");
                 if (it != json.MemberEnd()) {
-                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.Get(context.document());
-                    PERSISTENCE_IF_UNLIKELY(!object) {
+                    if (!detail::check_string<Exception>(it->value, context)) {
                         return false;
                     }
 
+                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
+                    rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;
                     auto ref = context.get(object);
                     PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
-                        return false;
+                        if constexpr (Exception) {
+                            throw JsonDeserializationError(
+                                "unresolved back-reference",
+                                Path(context.segments()).str()
+                            );
+                        } else {
+                            return false;
+                        }
                     }
 
                     pointer = std::reinterpret_pointer_cast<T>(ref.value());
-- 
2.43.0


From 9f625778a9d8ab743d069d714b8fa7c52c0fcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:15 +0000
Subject: [PATCH 08/33] fix: tie back-references to the pointed-to type so that
 a reference never aliases an object of a different type

---
 include/persistence/deserialize_pointer.hpp        |  2 +-
 include/persistence/detail/deserialize_context.hpp | 12 ++++++++----
 include/persistence/detail/output_context.hpp      | 13 ++++++++-----
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index a448b77..68c30a1 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -47,7 +47,7 @@ namespace persistence
 
                     rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
                     rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;
-                    auto ref = context.get(object);
+                    auto ref = context.get<T>(object);
                     PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
                         if constexpr (Exception) {
                             throw JsonDeserializationError(
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 829ef2f..6e55fc4 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -2,6 +2,8 @@
 #include "document_context.hpp"
 #include "references.hpp"
 #include "segment.hpp"
+#include <memory>
+#include <typeindex>
 
 namespace persistence
 {
@@ -10,7 +12,7 @@ namespace persistence
     {
         using DocumentContext::DocumentContext;
 
-        ReferenceTable<const rapidjson::Value*, std::shared_ptr<void>> references;
+        ReferenceTable<std::pair<const rapidjson::Value*, std::type_index>, std::shared_ptr<void>> references;
     };
 
     struct DeserializerContext
@@ -26,14 +28,16 @@ namespace persistence
             , segment(segment)
         {}
 
+        template<typename T>
         std::optional<std::shared_ptr<void>> get(const rapidjson::Value* pointer) const
         {
-            return global.references.get(pointer);
+            return global.references.get(std::make_pair(pointer, std::type_index(typeid(T))));
         }
 
-        void put(const rapidjson::Value* pointer, std::shared_ptr<void> object)
+        template<typename T>
+        void put(const rapidjson::Value* pointer, const std::shared_ptr<T>& object)
         {
-            global.references.put(std::move(pointer), std::move(object));
+            global.references.put(std::make_pair(pointer, std::type_index(typeid(T))), object);
         }
 
         rapidjson::Document& document()
diff --git a/include/persistence/detail/output_context.hpp b/include/persistence/detail/output_context.hpp
index c18eb79..94a0311 100644
--- a/include/persistence/detail/output_context.hpp
+++ b/include/persistence/detail/output_context.hpp
@@ -2,12 +2,13 @@
 #include "references.hpp"
 #include "segment.hpp"
 #include <memory>
+#include <typeindex>
 
 namespace persistence
 {
     struct WriterReferenceContext
     {
-        ReferenceTable<std::shared_ptr<void>, Segments> references;
+        ReferenceTable<std::pair<std::shared_ptr<void>, std::type_index>, Segments> references;
     };
 
     template<typename GlobalContext>
@@ -24,14 +25,16 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<Segments> get(const std::shared_ptr<void>& pointer) const
+        template<typename T>
+        std::optional<Segments> get(const std::shared_ptr<T>& pointer) const
         {
-            return global_context.references.get(pointer);
+            return global_context.references.get(std::make_pair(pointer, std::type_index(typeid(T))));
         }
 
-        void put(std::shared_ptr<void> pointer)
+        template<typename T>
+        void put(const std::shared_ptr<T>& pointer)
         {
-            global_context.references.put(std::move(pointer), segments());
+            global_context.references.put(std::make_pair(pointer, std::type_index(typeid(T))), segments());
         }
 
         GlobalContext& global()
-- 
2.43.0


From 9023b801aed237a8f3160ccd7dc50f971239d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:15 +0000
Subject: [PATCH 09/33] fix: let a successful variant alternative replace
 references recorded by a failed one

---
 include/persistence/detail/references.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 029fbc5..54c6d3f 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -19,12 +19,12 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert(std::make_pair(key, value));
+            references.insert_or_assign(key, value);
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert(std::make_pair(std::move(key), std::move(value)));
+            references.insert_or_assign(std::move(key), std::move(value));
         }
 
     private:
-- 
2.43.0


From d85b725fa7b8fadab57e1eeab790bb08158cbe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:15 +0000
Subject: [PATCH 10/33] fix: reject numbers that exceed the range of float when
 deserializing from DOM

---
 include/persistence/deserialize_fundamental.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index fb12b70..a72e5dc 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 
@@ -290,7 +291,19 @@ namespace persistence
                 }
             }
 
-            value = static_cast<T>(json.GetDouble());
+            double number_value = json.GetDouble();
+            PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(number_value)) {
+                if constexpr (Exception) {
+                    throw JsonDeserializationError(
+                        "floating-point number out of range",
+                        Path(context.segments()).str()
+                    );
+                } else {
+                    return false;
+                }
+            }
+
+            value = static_cast<T>(number_value);
             return true;
         }
     };
-- 
2.43.0


From bc22ddb09eeec89a4edffb9ea185eabd46acad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:21 +0000
Subject: [PATCH 11/33] fix: parse floating-point numbers with full precision
 so that written values are restored exactly

---
 include/persistence/deserialize.hpp | 8 ++++----
 include/persistence/parse.hpp       | 2 +-
 include/persistence/utility.hpp     | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 45661ed..7425c18 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -70,7 +70,7 @@ namespace persistence
     bool deserialize(const std::string& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -87,7 +87,7 @@ namespace persistence
     bool deserialize(std::string&& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -101,7 +101,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 
@@ -114,7 +114,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 }
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 5c51ff1..321d7ce 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -17,7 +17,7 @@ namespace persistence
 
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse(stream, context.dispatcher);
+            return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
         }
     }
 
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index fe11df1..888df7a 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -25,7 +25,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 
@@ -35,7 +35,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 }
-- 
2.43.0


From 167d271abd45e7a10f0e53d2443ea23c273f764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:59 +0000
Subject: [PATCH 12/33] fix: convert timestamps to calendar time without shared
 static storage

---
 include/persistence/datetime.hpp | 38 +++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 021baf6..cd1a85d 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -14,6 +14,13 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return _mkgmtime(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline void posix_to_utc(std::time_t posix_time, std::tm* cal) {
+            gmtime_s(cal, &posix_time);
+        }
     }
 }
 #else
@@ -27,6 +34,13 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return timegm(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline void posix_to_utc(std::time_t posix_time, std::tm* cal) {
+            gmtime_r(&posix_time, cal);
+        }
     }
 }
 #endif
@@ -250,10 +264,11 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
+        std::tm calendar_time{};
+        detail::posix_to_utc(posix_time, &calendar_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_date dt;
@@ -274,13 +289,14 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
-        int hour = calendar_time->tm_hour;
-        int minute = calendar_time->tm_min;
-        int second = calendar_time->tm_sec;
+        std::tm calendar_time{};
+        detail::posix_to_utc(posix_time, &calendar_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
+        int hour = calendar_time.tm_hour;
+        int minute = calendar_time.tm_min;
+        int second = calendar_time.tm_sec;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_datetime dt;
-- 
2.43.0


From 4f2320d916926ec90c6dcedc500fc5312636271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:21 +0000
Subject: [PATCH 13/33] fix: reject date-time strings outside the range of the
 system clock instead of wrapping around

---
 include/persistence/datetime.hpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index cd1a85d..265682f 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -105,6 +105,31 @@ namespace persistence
 
     namespace detail
     {
+        /**
+         * Creates a chrono time point from a Gregorian calendar date and UTC time if it is in the range of the clock.
+         */
+        inline bool to_timestamp(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second, timestamp& value)
+        {
+            std::tm tm{};
+            tm.tm_year = year - 1900;
+            tm.tm_mon = month - 1;
+            tm.tm_mday = day;
+            tm.tm_hour = hour;
+            tm.tm_min = minute;
+            tm.tm_sec = second;
+            std::chrono::seconds s(utc_to_posix(&tm));
+
+            using std::chrono::duration_cast;
+            constexpr auto lower = duration_cast<std::chrono::seconds>(timestamp::min().time_since_epoch());
+            constexpr auto upper = duration_cast<std::chrono::seconds>(timestamp::max().time_since_epoch());
+            PERSISTENCE_IF_UNLIKELY(s < lower || s > upper) {
+                return false;
+            }
+
+            value = timestamp(duration_cast<timestamp::duration>(s));
+            return true;
+        }
+
         inline bool from_digits(const char* first, const char* last, unsigned& value)
         {
             auto result = std::from_chars(first, last, value);
@@ -139,8 +164,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, 0, 0, 0);
-        return true;
+        return detail::to_timestamp(year, month, day, 0, 0, 0, value);
     }
 
     /**
@@ -180,8 +204,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, hour, minute, second);
-        return true;
+        return detail::to_timestamp(year, month, day, hour, minute, second, value);
     }
 
     namespace detail
-- 
2.43.0


From bca91df36144bc06641e87ffde113b164f8df48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:29 +0000
Subject: [PATCH 14/33] fix: parse and format calendar dates without converting
 them to a clock with a narrower range

---
 include/persistence/datetime.hpp         | 57 ++++++++++++++++++++++--
 include/persistence/deserialize_date.hpp |  4 +-
 include/persistence/parse_date.hpp       |  4 +-
 include/persistence/serialize_date.hpp   |  6 ++-
 include/persistence/write_date.hpp       |  6 ++-
 5 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 265682f..3049acf 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -138,9 +138,9 @@ namespace persistence
     }
 
     /**
-     * Parses a chrono time point from an ISO 8601 date string.
+     * Parses the components of an ISO 8601 date string.
      */
-    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    inline bool parse_date(const char* text, std::size_t len, unsigned& year, unsigned& month, unsigned& day)
     {
         PERSISTENCE_IF_UNLIKELY(len != 10) {
             return false;
@@ -151,7 +151,6 @@ namespace persistence
         }
 
         using detail::from_digits;
-        unsigned year, month, day;
         PERSISTENCE_IF_UNLIKELY(
             !from_digits(text, text + 4, year) ||
             !from_digits(text + 5, text + 7, month) ||
@@ -164,9 +163,37 @@ namespace persistence
             return false;
         }
 
-        return detail::to_timestamp(year, month, day, 0, 0, 0, value);
+        return true;
+    }
+
+    /**
+     * Parses a chrono time point from an ISO 8601 date string.
+     */
+    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    {
+        unsigned year, month, day;
+        return parse_date(text, len, year, month, day)
+            && detail::to_timestamp(year, month, day, 0, 0, 0, value);
     }
 
+#if __cplusplus >= 202002L
+    /**
+     * Parses a calendar date from an ISO 8601 date string.
+     */
+    inline bool parse_date(const char* text, std::size_t len, std::chrono::year_month_day& value)
+    {
+        unsigned year, month, day;
+        PERSISTENCE_IF_UNLIKELY(!parse_date(text, len, year, month, day)) {
+            return false;
+        }
+
+        value = std::chrono::year_month_day(
+            std::chrono::year(static_cast<int>(year)), std::chrono::month(month), std::chrono::day(day)
+        );
+        return true;
+    }
+#endif
+
     /**
      * Parses a chrono time point from an ISO 8601 date-time string.
      */
@@ -303,6 +330,28 @@ namespace persistence
         return dt;
     }
 
+#if __cplusplus >= 202002L
+    /**
+     * Converts a calendar date to an ISO 8601 date string.
+     *
+     * @return True on success, false if the date does not exist or cannot be represented with a 4-digit year.
+     */
+    inline bool to_iso_date(const std::chrono::year_month_day& value, iso_date& date)
+    {
+        int year = static_cast<int>(value.year());
+        PERSISTENCE_IF_UNLIKELY(!value.ok() || year < 0 || year > 9999) {
+            return false;
+        }
+
+        date = iso_date();
+        using detail::to_aligned_digits;
+        to_aligned_digits<4>(date.year(), year);
+        to_aligned_digits<2>(date.month(), static_cast<int>(static_cast<unsigned>(value.month())));
+        to_aligned_digits<2>(date.day(), static_cast<int>(static_cast<unsigned>(value.day())));
+        return true;
+    }
+#endif
+
     /**
      * Converts a chrono time point to an ISO 8601 date-time string.
      */
diff --git a/include/persistence/deserialize_date.hpp b/include/persistence/deserialize_date.hpp
index 1c06f8b..89301af 100644
--- a/include/persistence/deserialize_date.hpp
+++ b/include/persistence/deserialize_date.hpp
@@ -21,8 +21,7 @@ namespace persistence
                 return false;
             }
 
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), ts)) {
+            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(json.GetString(), json.GetStringLength()),
@@ -33,7 +32,6 @@ namespace persistence
                 }
             }
 
-            value = std::chrono::time_point_cast<std::chrono::days>(ts);
             return true;
         }
     };
diff --git a/include/persistence/parse_date.hpp b/include/persistence/parse_date.hpp
index 99cba35..469ef34 100644
--- a/include/persistence/parse_date.hpp
+++ b/include/persistence/parse_date.hpp
@@ -20,13 +20,11 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ts)) {
+            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ref)) {
                 context.fail("invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(s.literal));
                 return false;
             }
 
-            ref = std::chrono::time_point_cast<std::chrono::days>(ts);
             context.pop();
             return true;
         }
diff --git a/include/persistence/serialize_date.hpp b/include/persistence/serialize_date.hpp
index a172eec..3bd5479 100644
--- a/include/persistence/serialize_date.hpp
+++ b/include/persistence/serialize_date.hpp
@@ -5,6 +5,7 @@
 #include "datetime.hpp"
 #include "serialize_base.hpp"
 #include "detail/serialize_aware.hpp"
+#include "detail/unlikely.hpp"
 
 namespace persistence
 {
@@ -15,7 +16,10 @@ namespace persistence
 
         bool operator()(std::chrono::year_month_day value, rapidjson::Value& json) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
             json.SetString(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), context.global().allocator());
             return true;
         }
diff --git a/include/persistence/write_date.hpp b/include/persistence/write_date.hpp
index dbf1f43..4ca0f4b 100644
--- a/include/persistence/write_date.hpp
+++ b/include/persistence/write_date.hpp
@@ -4,6 +4,7 @@
 #endif
 #include "datetime.hpp"
 #include "write_base.hpp"
+#include "detail/unlikely.hpp"
 
 namespace persistence
 {
@@ -12,7 +13,10 @@ namespace persistence
     {
         bool operator()(std::chrono::year_month_day value, StringWriter& writer) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
             writer.String(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), true);
             return true;
         }
-- 
2.43.0


From 1c5c4c55742d8fa3dab4c84d24f60c3ed7976141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:18 +0000
Subject: [PATCH 15/33] fix: never read past the end of the input in Base64
 encoding

---
 include/persistence/base64.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/persistence/base64.hpp b/include/persistence/base64.hpp
index a35caa4..f880983 100644
--- a/include/persistence/base64.hpp
+++ b/include/persistence/base64.hpp
@@ -2,6 +2,9 @@
 #include "bytes.hpp"
 #include "detail/unlikely.hpp"
 #include <array>
+#include <cstdint>
+#include <cstring>
+#include <string>
 
 namespace persistence
 {
@@ -100,7 +103,7 @@ namespace persistence
             return true;
         }
 
-        std::size_t fast_sextets = input.size() / 24 * 4;  // round to multiples of 8 bytes to ensure pointer stays in addressable range
+        std::size_t fast_sextets = input.size() >= 8 ? (input.size() - 2) / 6 : 0;  // each sextet is read as a 64-bit word, the last of which must stay in addressable range
         std::size_t full_triplets = input.size() / 3;
         std::size_t remaining_triplets = full_triplets - fast_sextets * 2;
         std::size_t remaining_bytes = input.size() % 3;
@@ -112,7 +115,8 @@ namespace persistence
 
         // iterate over data with 64-bit words, processing full sextets
         for (std::size_t i = 0; i < fast_sextets; ++i) {
-            uint64_t value = *reinterpret_cast<const uint64_t*>(p);
+            std::uint64_t value;
+            std::memcpy(&value, p, sizeof(value));
             if constexpr (detail::endianness::native == detail::endianness::little) {
                 detail::encode_sextet_little_endian(value, r);
             } else if constexpr (detail::endianness::native == detail::endianness::big) {
-- 
2.43.0


From 5e1bc07d0482219e8ac6260de9357f51146f11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:51 +0000
Subject: [PATCH 16/33] fix: report a JSON string nested too deeply for the
 parser as a parse error

---
 include/persistence/detail/polymorphic_stack.hpp | 10 +++++++++-
 include/persistence/parse.hpp                    |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 95eb5f0..3e80db5 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -8,6 +8,14 @@ namespace persistence
 {
     namespace detail
     {
+        /** Raised when a polymorphic stack has no space left for another object. */
+        struct stack_exhausted : std::out_of_range
+        {
+            stack_exhausted()
+                : std::out_of_range("stack space exhausted")
+            {}
+        };
+
         /**
          * A stack for storing polymorphic objects deriving from a common base class.
          *
@@ -24,7 +32,7 @@ namespace persistence
                 static_assert(std::is_base_of<Base, Class>::value, "newly constructed class must derive from base class");
 
                 PERSISTENCE_IF_UNLIKELY(count >= Capacity || (next - memory) >= static_cast<std::ptrdiff_t>(MemorySize - alignof(Class) - sizeof(Class))) {
-                    throw std::out_of_range("stack space exhausted");
+                    throw stack_exhausted();
                 }
 
                 items[count] = current;
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 321d7ce..4acde45 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -17,7 +17,12 @@ namespace persistence
 
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            try {
+                return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            } catch (const stack_exhausted&) {
+                context.fail("JSON document is nested too deeply");
+                return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
+            }
         }
     }
 
-- 
2.43.0


From 31cacfba692c0f0eaaee2c0eedbbde974cf86cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:21 +0000
Subject: [PATCH 17/33] fix: do not destroy the top of the handler stack twice
 when a constructor throws

---
 include/persistence/detail/polymorphic_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 3e80db5..ca9c503 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -35,11 +35,13 @@ namespace persistence
                     throw stack_exhausted();
                 }
 
+                // ensure proper alignment for newly constructed object
+                std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+
+                // register object only when its constructor has completed
                 items[count] = current;
                 ++count;
-
-                // ensure proper alignment for newly constructed object
-                current = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                current = object;
                 next = current + sizeof(Class);
 
                 return back();
-- 
2.43.0


From cecc5f41504d49d4335d8cf5235c8c22dbc07d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:57 +0000
Subject: [PATCH 18/33] fix: parse numeric items of vectors and sets whose
 element type has no dedicated array parser

---
 include/persistence/parse_set.hpp    | 42 ++++++++++++++++++++++++++++
 include/persistence/parse_vector.hpp | 42 ++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 0927825..c7d8daa 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -31,7 +31,49 @@ namespace persistence
             return true;
         }
 
+        bool parse(const JsonValueInteger& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
+        bool parse(const JsonValueUnsigned& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
+        bool parse(const JsonValueInteger64& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
+        bool parse(const JsonValueUnsigned64& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
+        bool parse(const JsonValueDouble& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return parse_item(json_item);
+        }
+
+    private:
+        template<typename TokenType>
+        bool parse_number(const TokenType& json_item)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return parse_item(json_item);
+            } else {
+                return this->template fail<TokenType>();
+            }
+        }
+
+        template<typename TokenType>
+        bool parse_item(const TokenType& json_item)
         {
             // use temporary storage for parsing, set elements are immutable
             storage.emplace_back();
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 88b3147..298a189 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -24,7 +24,49 @@ namespace persistence
             return true;
         }
 
+        bool parse(const JsonValueInteger& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
+        bool parse(const JsonValueUnsigned& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
+        bool parse(const JsonValueInteger64& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
+        bool parse(const JsonValueUnsigned64& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
+        bool parse(const JsonValueDouble& json_item) override
+        {
+            return parse_number(json_item);
+        }
+
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return parse_item(json_item);
+        }
+
+    private:
+        template<typename TokenType>
+        bool parse_number(const TokenType& json_item)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return parse_item(json_item);
+            } else {
+                return this->template fail<TokenType>();
+            }
+        }
+
+        template<typename TokenType>
+        bool parse_item(const TokenType& json_item)
         {
             container.emplace_back();
             ReaderContext& ctx = this->context;
-- 
2.43.0


From edb8a9e3a00bfac99c7e5fa7abe3e021923d1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:07 +0000
Subject: [PATCH 19/33] fix: compare the entire string when matching an
 enumeration value with Boost.Describe

---
 include/persistence/deserialize_enum.hpp | 2 +-
 include/persistence/parse_enum.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 8c9bd41..6368520 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -75,7 +75,7 @@ namespace persistence
             }
 
             std::string_view view(json.GetString(), json.GetStringLength());
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(view.data(), value)) {
+            PERSISTENCE_IF_UNLIKELY(view.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(view.data(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "unrecognized enumeration string value; got: " + std::string(view),
diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index a7b372a..e473d97 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -119,7 +119,7 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(s.literal.data(), ref)) {
+            PERSISTENCE_IF_UNLIKELY(s.literal.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(s.literal.data(), ref)) {
                 context.fail("expected an enumeration string value; got: " + std::string(s.literal));
                 return false;
             }
-- 
2.43.0


From af0205264d49f72d9ff6acdabeca22c34d9e794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:51 +0000
Subject: [PATCH 20/33] fix: reject text that follows a NUL character in a JSON
 string

---
 include/persistence/deserialize.hpp | 26 ++++++++++++++++++++++++++
 include/persistence/parse.hpp       |  7 ++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 7425c18..bc2080f 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -1,11 +1,25 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/traits.hpp"
+#include "detail/unlikely.hpp"
 #include <rapidjson/error/en.h>
 
 namespace persistence
 {
+    namespace detail
+    {
+        /** Raises an error if a NUL character would terminate parsing, and text that follows would go unnoticed. */
+        inline void check_text(const std::string& str)
+        {
+            std::size_t pos = str.find('\0');
+            PERSISTENCE_IF_UNLIKELY(pos != std::string::npos) {
+                throw JsonParseError("unexpected NUL character", pos);
+            }
+        }
+    }
+
     template<bool Exception, typename T>
     auto make_deserializer(DeserializerContext& context)
     {
@@ -69,6 +83,11 @@ namespace persistence
     template<typename T>
     bool deserialize(const std::string& str, T& obj)
     {
+        // a NUL character would terminate parsing, and text that follows would go unnoticed
+        if (str.find('\0') != std::string::npos) {
+            return false;
+        }
+
         rapidjson::Document doc;
         doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
@@ -86,6 +105,11 @@ namespace persistence
     template<typename T>
     bool deserialize(std::string&& str, T& obj)
     {
+        // a NUL character would terminate parsing, and text that follows would go unnoticed
+        if (str.find('\0') != std::string::npos) {
+            return false;
+        }
+
         rapidjson::Document doc;
         doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
@@ -100,6 +124,7 @@ namespace persistence
     {
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
+        detail::check_text(str);
         rapidjson::Document doc;
         doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
@@ -113,6 +138,7 @@ namespace persistence
     {
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
+        detail::check_text(str);
         rapidjson::Document doc;
         doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 4acde45..19d52bd 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -18,7 +18,12 @@ namespace persistence
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
             try {
-                return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+                auto result = reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+                if (!result.IsError() && stream.Tell() != str.size()) {
+                    // a NUL character terminates parsing, text that follows has not been consumed
+                    result.Set(rapidjson::kParseErrorDocumentRootNotSingular, stream.Tell());
+                }
+                return result;
             } catch (const stack_exhausted&) {
                 context.fail("JSON document is nested too deeply");
                 return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
-- 
2.43.0


From c184a16ba7cdc915bb13ce068b0b193ad729ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:03 +0000
Subject: [PATCH 21/33] fix: generate a satisfiable schema for enumeration
 types

---
 include/persistence/schema.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 5f9e398..4cb90c1 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -7,6 +7,9 @@
 #include "detail/defer.hpp"
 #include "detail/traits.hpp"
 #include <set>
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+#include <boost/describe/enumerators.hpp>
+#endif
 
 namespace persistence
 {
@@ -157,11 +160,11 @@ namespace persistence
         {}
 
         std::string_view type;
-        std::variant<
+        std::optional<std::variant<
             std::vector<long long>,
             std::vector<unsigned long long>,
             std::vector<std::string>
-        > enum_values;
+        >> enum_values;
 
         template <typename Archive>
         constexpr auto persist(Archive& ar)
@@ -332,10 +335,12 @@ namespace persistence
         {
             if constexpr (detect<T, enum_to_string_function>::value) {
                 return JsonSchemaEnumType("string");
-            } else if constexpr (std::is_integral_v<T>) {
-                return JsonSchemaEnumType("integer");
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+            } else if constexpr (::boost::describe::has_describe_enumerators<T>::value) {
+                return JsonSchemaEnumType("string");
+#endif
             } else {
-                return JsonSchemaEnumType("object");
+                return JsonSchemaEnumType("integer");
             }
         }
     };
-- 
2.43.0


From 4c11fbb9e7a152e5a96834209c293d077f699340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:07 +0000
Subject: [PATCH 22/33] fix: include member variables with a default value in
 the schema

---
 include/persistence/schema.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 4cb90c1..1562671 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -450,6 +450,16 @@ namespace persistence
             return *this;
         }
 
+        template<typename T, class B, auto P, typename D>
+        JsonSchemaVisitor& operator&(const member::variable_default<T, B, P, D>& member)
+        {
+            static_assert(std::is_base_of_v<B, C>, "expected a member variable part of the class inheritance chain");
+            properties.push_back(
+                std::make_pair(member.name(), make_schema_ptr<T>(context))
+            );
+            return *this;
+        }
+
         JsonSchemaContext& context;
         JsonSchemaObjectProperties& properties;
         JsonSchemaObjectRequired& required;
-- 
2.43.0


From 05c07b1e9f901cf964bff9f4a1511981a603c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:30 +0000
Subject: [PATCH 23/33] fix: generate a finite schema for recursive types

---
 include/persistence/schema.hpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 1562671..5f7dc32 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -391,17 +391,36 @@ namespace persistence
     template<typename T>
     inline constexpr bool is_context_free_schema_v = is_context_free_schema<T>::value;
 
+    /** The type whose schema applies to a smart pointer. */
+    template<typename T>
+    struct schema_pointee
+    {
+        using type = T;
+    };
+
+    template<typename T>
+    struct schema_pointee<std::unique_ptr<T>> : schema_pointee<T>
+    {};
+
+    template<typename T>
+    struct schema_pointee<std::shared_ptr<T>> : schema_pointee<T>
+    {};
+
     template<typename T>
     JsonSchemaType make_schema(JsonSchemaContext& context)
     {
-        if constexpr (is_schema_traversable_v<T>) {
-            // save sub-schema in context
-            context.definitions.insert(
-                std::make_pair(
-                    std::string_view(typeid(T).name()),
-                    JsonSchema<T>::type(context)
-                )
+        using pointee_type = typename schema_pointee<T>::type;
+        if constexpr (!std::is_same_v<T, pointee_type>) {
+            return make_schema<pointee_type>(context);
+        } else if constexpr (is_schema_traversable_v<T>) {
+            // save sub-schema in context, registering the name first such that recursive types terminate
+            auto [it, inserted] = context.definitions.try_emplace(
+                std::string_view(typeid(T).name()),
+                JsonSchemaReferenceType()
             );
+            if (inserted) {
+                it->second = JsonSchema<T>::type(context);
+            }
 
             // use alias to refer to sub-schema
             return JsonSchemaReferenceType(
-- 
2.43.0


From 34cd4a704c8fa195846587f308e83cfb85c2c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:52 +0000
Subject: [PATCH 24/33] fix: find a perfect hash for member names that agree in
 low-order bits

FNV-1 lets differences in characters propagate only to higher-order bits. With a
power of two number of members (e.g. a, b, c and e), names that agree modulo that
power fall in the same slot for every seed, and the search for a seed (part of
static initialization) never terminates.
---
 include/persistence/detail/perfect_hash.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index 3753b16..9581fca 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -23,6 +23,14 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+
+                // let high-order bits affect low-order bits, otherwise strings whose characters agree in low-order bits
+                // would yield the same remainder for a power of two irrespective of the initial value
+                d ^= d >> 16;
+                d *= 0x85ebca6b;
+                d ^= d >> 13;
+                d *= 0xc2b2ae35;
+                d ^= d >> 16;
                 return d & 0x7fffffff;
             } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
                 // Fowler–Noll–Vo hash function variant FNV-1 for 64 bits
@@ -36,6 +44,14 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+
+                // let high-order bits affect low-order bits, otherwise strings whose characters agree in low-order bits
+                // would yield the same remainder for a power of two irrespective of the initial value
+                d ^= d >> 33;
+                d *= 0xff51afd7ed558ccd;
+                d ^= d >> 33;
+                d *= 0xc4ceb9fe1a85ec53;
+                d ^= d >> 33;
                 return d & 0x7fffffffffffffff;
             }
         }
-- 
2.43.0


From c28f040cb4ea5d5c83bf5db89ca2299384fc4f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:00 +0000
Subject: [PATCH 25/33] fix: discard references recorded by a variant
 alternative that does not match

A later back-reference could resolve to an object that was created for a variant
alternative which has been abandoned, and which is not part of the result.
---
 include/persistence/deserialize_variant.hpp   |  3 ++
 .../detail/deserialize_context.hpp            | 12 ++++++++
 include/persistence/detail/references.hpp     | 29 +++++++++++++++++--
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_variant.hpp b/include/persistence/deserialize_variant.hpp
index 485e60c..611eafe 100644
--- a/include/persistence/deserialize_variant.hpp
+++ b/include/persistence/deserialize_variant.hpp
@@ -33,7 +33,10 @@ namespace persistence
         bool deserialize_variant(const rapidjson::Value& json, std::variant<Ts...>& value) const
         {
             T var;
+            std::size_t reference_count = context.reference_count();
             if (!deserialize<false>(json, var, context)) {
+                // objects created for an alternative that does not match cannot be the target of a back-reference
+                context.discard_references(reference_count);
                 return false;
             }
 
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 6e55fc4..ddf3026 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -40,6 +40,18 @@ namespace persistence
             global.references.put(std::make_pair(pointer, std::type_index(typeid(T))), object);
         }
 
+        /** The number of objects that have been registered as the target of a back-reference. */
+        std::size_t reference_count() const
+        {
+            return global.references.size();
+        }
+
+        /** Forgets objects that have been registered as the target of a back-reference since the given count was taken. */
+        void discard_references(std::size_t count)
+        {
+            global.references.truncate(count);
+        }
+
         rapidjson::Document& document()
         {
             return global.document();
diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 54c6d3f..a97ded0 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <map>
 #include <optional>
+#include <vector>
 
 namespace persistence
 {
@@ -19,15 +20,39 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert_or_assign(key, value);
+            auto [it, inserted] = references.insert_or_assign(key, value);
+            if (inserted) {
+                history.push_back(it);
+            }
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert_or_assign(std::move(key), std::move(value));
+            auto [it, inserted] = references.insert_or_assign(std::move(key), std::move(value));
+            if (inserted) {
+                history.push_back(it);
+            }
+        }
+
+        /** The number of references in the table. */
+        std::size_t size() const
+        {
+            return history.size();
+        }
+
+        /** Removes all references but those that were added first. */
+        void truncate(std::size_t size)
+        {
+            while (history.size() > size) {
+                references.erase(history.back());
+                history.pop_back();
+            }
         }
 
     private:
         std::map<K, V> references;
+
+        /** References in the order in which they have been added. */
+        std::vector<typename std::map<K, V>::iterator> history;
     };
 }
-- 
2.43.0


From 5770bfc9c29115afa8c2c8d85ae6407b966cb9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:41 +0000
Subject: [PATCH 26/33] fix: escape control characters U+001A to U+001F in long
 strings

---
 include/persistence/detail/config.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/persistence/detail/config.hpp b/include/persistence/detail/config.hpp
index 62bd4cd..a4f4570 100644
--- a/include/persistence/detail/config.hpp
+++ b/include/persistence/detail/config.hpp
@@ -1,10 +1,5 @@
 #pragma once
 
-// detect instructions which speed up RapidJSON whitespace identification
-#if defined(__SSE4_2__)
-#define RAPIDJSON_SSE42
-#elif defined(__SSE2__) || (defined(_MSC_VER) && defined(_M_X64))
-#define RAPIDJSON_SSE2
-#elif defined(__ARM_NEON)
-#define RAPIDJSON_NEON
-#endif
+// vector instructions (`RAPIDJSON_SSE42`, `RAPIDJSON_SSE2` or `RAPIDJSON_NEON`) are not enabled in RapidJSON: the
+// implementation in release 1.1.0 fails to recognize control characters U+001A to U+001F in strings of 16 characters or
+// more, which are then written without escaping (not valid JSON) and accepted unescaped when read
-- 
2.43.0


From 454867d81c800850cb4686d69591570e8ebfe4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:36 +0000
Subject: [PATCH 27/33] fix: resolve back-references whose path has an object
 key with a NUL character

---
 include/persistence/deserialize_pointer.hpp | 29 ++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index 68c30a1..1ceb73f 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -46,7 +46,7 @@ namespace persistence
                     }
 
                     rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;
+                    const rapidjson::Value* object = path.IsValid() ? resolve(path, context.document()) : nullptr;
                     auto ref = context.get<T>(object);
                     PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
                         if constexpr (Exception) {
@@ -72,5 +72,32 @@ namespace persistence
             context.put(&json, pointer);
             return true;
         }
+
+    private:
+        /** Finds the value that a JSON pointer identifies, treating object keys as strings that may contain NUL. */
+        static const rapidjson::Value* resolve(const rapidjson::Pointer& path, const rapidjson::Value& root)
+        {
+            const rapidjson::Value* value = &root;
+            const auto* tokens = path.GetTokens();
+            for (std::size_t k = 0; k < path.GetTokenCount(); ++k) {
+                if (value->IsObject()) {
+                    rapidjson::Value name(rapidjson::StringRef(tokens[k].name, tokens[k].length));
+                    auto&& it = value->FindMember(name);
+                    if (it == value->MemberEnd()) {
+                        return nullptr;
+                    }
+                    value = &it->value;
+                } else if (value->IsArray()) {
+                    // an index that is not a number is represented with the largest integer
+                    if (tokens[k].index >= value->Size()) {
+                        return nullptr;
+                    }
+                    value = &(*value)[tokens[k].index];
+                } else {
+                    return nullptr;
+                }
+            }
+            return value;
+        }
     };
 }
-- 
2.43.0


From 619983291fa7a74484dc24e4e17d98ed433d328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:22 +0000
Subject: [PATCH 28/33] fix: parse into the elements of the text only, not in
 addition to default items

A member variable of container type with a default member initializer kept its
default items, and what a text held was appended to them.
---
 include/persistence/parse_map.hpp    | 1 +
 include/persistence/parse_set.hpp    | 1 +
 include/persistence/parse_vector.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/persistence/parse_map.hpp b/include/persistence/parse_map.hpp
index 73593b2..c5c320e 100644
--- a/include/persistence/parse_map.hpp
+++ b/include/persistence/parse_map.hpp
@@ -45,6 +45,7 @@ namespace persistence
 
         bool parse(const JsonObjectStart&) override
         {
+            container.clear();
             context.replace<JsonMapParser<C>>(context, container);
             return true;
         }
diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index c7d8daa..3086549 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -284,6 +284,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonSetParser<T>>(context, ref);
             return true;
         }
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 298a189..f21839d 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -275,6 +275,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonArrayParser<T>>(context, ref);
             return true;
         }
-- 
2.43.0


From 2aded758802281de113e6d7c3ef0f5cde585d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:14 +0000
Subject: [PATCH 29/33] fix: report failures in member variables of a derived
 class

The function persist of a derived class works on a copy of the archive that the
function of the base class returns, hence the outcome for the members of the
derived class was lost. A type mismatch passed unnoticed with the forms that
return a boolean, and a number that cannot be represented was written as text
that is not JSON.
---
 include/persistence/deserialize_object.hpp | 4 ++--
 include/persistence/serialize_object.hpp   | 4 ++--
 include/persistence/write_object.hpp       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index 14addbe..dd56e75 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -134,8 +134,8 @@ namespace persistence
             }
 
             JsonObjectDeserializer<Exception, T> deserializer(context, json, value);
-            value.persist(deserializer);
-            return static_cast<bool>(deserializer);
+            // the member function returns a copy of the archive if there is a base class
+            return static_cast<bool>(value.persist(deserializer));
         }
     };
 }
diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index df3c2f7..df70b0f 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -109,8 +109,8 @@ namespace persistence
             JsonObjectSerializer<T> serializer(context, value, json);
 
             json.SetObject();
-            const_cast<T&>(value).persist(serializer);
-            return static_cast<bool>(serializer);
+            // the member function returns a copy of the archive if there is a base class
+            return static_cast<bool>(const_cast<T&>(value).persist(serializer));
         }
     };
 }
diff --git a/include/persistence/write_object.hpp b/include/persistence/write_object.hpp
index bec157e..1038bf8 100644
--- a/include/persistence/write_object.hpp
+++ b/include/persistence/write_object.hpp
@@ -105,8 +105,8 @@ namespace persistence
             JsonObjectWriter serializer(context, value, writer);
 
             writer.StartObject();
-            const_cast<T&>(value).persist(serializer);
-            if (!serializer) {
+            // the member function returns a copy of the archive if there is a base class
+            if (!const_cast<T&>(value).persist(serializer)) {
                 return false;
             }
             writer.EndObject();
-- 
2.43.0


From 906df552315d0c0a97de54b2b6e81162582fd68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 30/33] fix: convert numbers outside the range of double to
 zero or an error

---
 include/persistence/deserialize.hpp         |   9 +-
 include/persistence/detail/number_range.hpp | 164 ++++++++++++++++++++
 include/persistence/parse.hpp               |   4 +-
 include/persistence/utility.hpp             |   5 +-
 4 files changed, 178 insertions(+), 4 deletions(-)
 create mode 100644 include/persistence/detail/number_range.hpp

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index bc2080f..28a68ad 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -2,6 +2,7 @@
 #include "deserialize_base.hpp"
 #include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/number_range.hpp"
 #include "detail/traits.hpp"
 #include "detail/unlikely.hpp"
 #include <rapidjson/error/en.h>
@@ -89,7 +90,8 @@ namespace persistence
         }
 
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        detail::NumberText text(str);
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(text.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -111,6 +113,7 @@ namespace persistence
         }
 
         rapidjson::Document doc;
+        detail::clamp_numbers(str.data(), str.data() + str.size(), str.data());
         doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
@@ -126,7 +129,8 @@ namespace persistence
 
         detail::check_text(str);
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        detail::NumberText text(str);
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(text.data());
         return deserialize<T>(doc);
     }
 
@@ -140,6 +144,7 @@ namespace persistence
 
         detail::check_text(str);
         rapidjson::Document doc;
+        detail::clamp_numbers(str.data(), str.data() + str.size(), str.data());
         doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
diff --git a/include/persistence/detail/number_range.hpp b/include/persistence/detail/number_range.hpp
new file mode 100644
index 0000000..534e3a5
--- /dev/null
+++ b/include/persistence/detail/number_range.hpp
@@ -0,0 +1,164 @@
+#pragma once
+#include <algorithm>
+#include <charconv>
+#include <cmath>
+#include <cstdlib>
+#include <string>
+#include <string_view>
+#include <system_error>
+
+namespace persistence
+{
+    namespace detail
+    {
+        /**
+         * Replaces a JSON number that RapidJSON would not convert to the correct double.
+         *
+         * RapidJSON 1.1.0 fails to convert such numbers when full precision is in effect (e.g. 1e-324, 1.8e308 or 0e300
+         * produce an arbitrary value, or trigger an assertion). A number that is too small in magnitude is replaced with
+         * zero, and a number that is too large is replaced with a number that RapidJSON rejects with an error. Numbers
+         * that are not well-formed are left for RapidJSON to report.
+         *
+         * @param first, last The characters of the number.
+         * @param target Where to write the replacement (of identical length), or null to test if a replacement is needed.
+         * @return True if the number needs to be replaced.
+         */
+        inline bool clamp_number(const char* first, const char* last, char* target)
+        {
+            const char* pos = first;
+            auto consume = [&](char c) {
+                bool match = pos != last && *pos == c;
+                pos += match ? 1 : 0;
+                return match;
+            };
+            auto digits = [&]() {
+                const char* start = pos;
+                while (pos != last && *pos >= '0' && *pos <= '9') {
+                    ++pos;
+                }
+                return std::string_view(start, pos - start);
+            };
+
+            bool minus = consume('-');
+            std::string_view integer = digits();
+            if (integer.empty() || (integer.size() > 1 && integer.front() == '0')) {
+                return false;
+            }
+
+            std::string_view fraction;
+            if (consume('.')) {
+                fraction = digits();
+                if (fraction.empty()) {
+                    return false;
+                }
+            }
+
+            long long exponent = 0;
+            if (consume('e') || consume('E')) {
+                bool negative = !consume('+') && consume('-');
+                std::string_view number = digits();
+                if (number.empty()) {
+                    return false;
+                }
+                auto result = std::from_chars(number.data(), number.data() + number.size(), exponent);
+                if (result.ec != std::errc() || exponent > 1000000000) {
+                    exponent = 1000000000;
+                }
+                exponent = negative ? -exponent : exponent;
+            }
+
+            if (pos != last) {
+                return false;
+            }
+
+            // find order of magnitude
+            std::size_t zeros = fraction.find_first_not_of('0');
+            bool zero = integer == "0" && zeros == std::string_view::npos;
+            if (!zero) {
+                if (integer != "0") {
+                    exponent += static_cast<long long>(integer.size()) - 1;
+                } else {
+                    exponent -= static_cast<long long>(zeros) + 1;
+                }
+                if (exponent < 308 && exponent > -324) {
+                    return false;
+                }
+
+#if defined(__cpp_lib_to_chars)
+                double value;
+                bool representable = std::from_chars(first, last, value).ec == std::errc();
+#else
+                double value = std::strtod(std::string(first, last).data(), nullptr);
+                bool representable = value != 0.0 && !std::isinf(value);
+#endif
+                if (representable) {
+                    return false;
+                }
+            }
+
+            if (target != nullptr) {
+                if (minus) {
+                    ++target;
+                    ++first;
+                }
+                std::string_view replacement = zero || exponent < 0 ? "0.0" : "9e999";
+                std::fill(replacement.copy(target, replacement.size()) + target, target + (last - first), ' ');
+            }
+            return true;
+        }
+
+        /** Replaces numbers in a JSON string that RapidJSON would not convert to the correct double. */
+        inline bool clamp_numbers(const char* first, const char* last, char* target)
+        {
+            bool found = false;
+            for (const char* pos = first; pos != last;) {
+                if (*pos == '"') {
+                    for (++pos; pos != last && *pos != '"'; ++pos) {
+                        if (*pos == '\\' && pos + 1 != last) {
+                            ++pos;
+                        }
+                    }
+                    pos += pos != last ? 1 : 0;
+                } else if (*pos == '-' || (*pos >= '0' && *pos <= '9')) {
+                    const char* start = pos;
+                    bool candidate = false;
+                    for (; pos != last && (*pos == '-' || *pos == '+' || *pos == '.' || *pos == 'e' || *pos == 'E' || (*pos >= '0' && *pos <= '9')); ++pos) {
+                        candidate |= *pos == 'e' || *pos == 'E';
+                    }
+                    if (candidate || pos - start > 20) {
+                        found |= clamp_number(start, pos, target != nullptr ? target + (start - first) : nullptr);
+                    }
+                } else {
+                    ++pos;
+                }
+            }
+            return found;
+        }
+
+        /** JSON text in which numbers are in the range of double. */
+        class NumberText
+        {
+        public:
+            explicit NumberText(const std::string& str)
+                : text(str)
+            {
+                if (clamp_numbers(str.data(), str.data() + str.size(), nullptr)) {
+                    copy = str;
+                    clamp_numbers(str.data(), str.data() + str.size(), copy.data());
+                    text = copy;
+                }
+            }
+
+            NumberText(const NumberText&) = delete;
+
+            const char* data() const
+            {
+                return text.data();
+            }
+
+        private:
+            std::string copy;
+            std::string_view text;
+        };
+    }
+}
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 19d52bd..7b693c1 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "parse_base.hpp"
 #include "exception.hpp"
+#include "detail/number_range.hpp"
 #include <rapidjson/reader.h>
 #include <rapidjson/error/en.h>
 
@@ -13,7 +14,8 @@ namespace persistence
         {
             context.emplace<JsonParser<T>>(context, value);
             rapidjson::Reader reader;
-            rapidjson::StringStream stream(str.data());
+            NumberText text(str);
+            rapidjson::StringStream stream(text.data());
 
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index 888df7a..2b1cd64 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "detail/config.hpp"
+#include "detail/number_range.hpp"
 #include "detail/pointer_traits.hpp"
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
@@ -25,7 +26,8 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        detail::NumberText text(str);
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(text.data());
         return doc;
     }
 
@@ -35,6 +37,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
+        detail::clamp_numbers(str.data(), str.data() + str.size(), str.data());
         doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
-- 
2.43.0


From dc111611dd9e144ffeaa6561e6612991d85f4d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:38 +0000
Subject: [PATCH 31/33] fix: do not refer to characters of a temporary in
 string_to_document

---
 include/persistence/utility.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index 2b1cd64..a407a63 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -36,9 +36,8 @@ namespace persistence
      */
     inline rapidjson::Document string_to_document(std::string&& str)
     {
-        rapidjson::Document doc;
-        detail::clamp_numbers(str.data(), str.data() + str.size(), str.data());
-        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
-        return doc;
+        // DOM object outlives the string passed (which may be a temporary), and must not refer to its characters
+        const std::string& text = str;
+        return string_to_document(text);
     }
 }
-- 
2.43.0


From ae580abd9f289ca3aabe10b4c892eff9131a7d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 32/33] fix: align objects placed on the handler stack

---
 include/persistence/detail/polymorphic_stack.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index ca9c503..9b516e6 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -36,7 +36,10 @@ namespace persistence
                 }
 
                 // ensure proper alignment for newly constructed object
-                std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                static_assert(alignof(Class) <= alignof(std::max_align_t), "over-aligned types are not supported");
+                std::size_t offset = static_cast<std::size_t>(next - memory);
+                std::byte* place = memory + (offset + alignof(Class) - 1) / alignof(Class) * alignof(Class);
+                std::byte* object = reinterpret_cast<std::byte*>(new (place) Class(std::forward<T>(args)...));
 
                 // register object only when its constructor has completed
                 items[count] = current;
@@ -79,7 +82,7 @@ namespace persistence
             }
 
         private:
-            std::byte memory[MemorySize];
+            alignas(std::max_align_t) std::byte memory[MemorySize];
             std::byte* current = nullptr;
             std::byte* next = memory;
             std::byte* items[Capacity] = { nullptr };
-- 
2.43.0


From 4d11600a603f92d94518d2da06a2102b49e8e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:52 +0000
Subject: [PATCH 33/33] fix: look up class members correctly in initializers of
 static variables

---
 include/persistence/parse_object.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/persistence/parse_object.hpp b/include/persistence/parse_object.hpp
index 85958ab..110dac4 100644
--- a/include/persistence/parse_object.hpp
+++ b/include/persistence/parse_object.hpp
@@ -181,7 +181,7 @@ namespace persistence
         bool parse(const JsonObjectKey& json_key) override
         {
             std::string_view identifier = json_key.identifier;
-            std::size_t k = hash_map.index(identifier);
+            std::size_t k = hash_map().index(identifier);
             PERSISTENCE_IF_UNLIKELY(names[k] != identifier) {
                 context.fail("expected class member name; got: " + std::string(json_key.identifier));
                 return false;
@@ -203,8 +203,15 @@ namespace persistence
         }
 
         constexpr static auto members = typename class_traits<C>::member_types();
-        inline static auto names = member_names();
-        inline static auto hash_map = PerfectHash(names);
+        constexpr static auto names = member_names();
+
+        /** Lookup table constructed on first use, which may occur before variables with static storage duration are initialized. */
+        static const auto& hash_map()
+        {
+            static const auto map = PerfectHash(names);
+            return map;
+        }
+
         C& ref;
     };
 
-- 
2.43.0

