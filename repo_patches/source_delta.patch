From 5d2f40ce4de766174a4ed6f4ad1c95eb38ffaad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 01/38] fix: register propertyNames subschemas under their own
 path

---
 include/valijson/schema_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 065730e..f4ff506 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1110,7 +1110,7 @@ private:
             if (m_version == kDraft7) {
                 rootSchema.addConstraintToSubschema(
                       makePropertyNamesConstraint(rootSchema, rootNode, itr->second, updatedScope,
-                              nodePath, fetchDoc, docCache, schemaRegistry),
+                              nodePath + "/propertyNames", fetchDoc, docCache, schemaRegistry),
                       &subschema);
             } else {
                 throwRuntimeError("Not supported");
-- 
2.43.0


From 2b5ba4636c868cc44bee6a676802a2ebb2fb159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 02/38] fix: escape property names in schema registry paths

---
 include/valijson/schema_parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index f4ff506..ad268e4 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2371,7 +2371,7 @@ private:
         if (properties) {
             for (const Member m : properties->getObject()) {
                 const std::string &property = m.first;
-                const std::string childPath = propertiesPath + "/" + property;
+                const std::string childPath = propertiesPath + "/" + escapeJsonPointerToken(property);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &property, docCache,
@@ -2384,7 +2384,7 @@ private:
         if (patternProperties) {
             for (const Member m : patternProperties->getObject()) {
                 const std::string &pattern = m.first;
-                const std::string childPath = patternPropertiesPath + "/" + pattern;
+                const std::string childPath = patternPropertiesPath + "/" + escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &pattern, docCache,
-- 
2.43.0


From 81570e9ca0ee863e46627c51f3eea018c433e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 03/38] fix: validate all patternProperties when collecting
 errors

---
 include/valijson/validation_visitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7b8e7b3..e312ce7 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1150,7 +1150,7 @@ public:
         // constraints
         constraint.applyToPatternProperties(
                 ValidatePatternPropertySubschemas(
-                        object, m_path, true, false, true, m_strictTypes, m_strictDateTime,
+                        object, m_path, true, m_results != nullptr, true, m_strictTypes, m_strictDateTime,
                         m_results, &propertiesMatched,
                         &validated, m_regexesCache));
 
-- 
2.43.0


From 34c007e1927942fbc3d8000f5cbfbd9f56171c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 04/38] fix: do not throw for uniqueItems or
 additionalProperties on weakly converted containers

---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index e312ce7..be4c8a7 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1159,7 +1159,7 @@ public:
         const Subschema *additionalPropertiesSubschema =
                 constraint.getAdditionalPropertiesSubschema();
         if (!additionalPropertiesSubschema) {
-            if (propertiesMatched.size() != m_target.getObjectSize()) {
+            if (propertiesMatched.size() != object.size()) {
                 if (m_results) {
                     std::string unwanted;
                     for (const typename AdapterType::ObjectMember m : object) {
@@ -1365,7 +1365,8 @@ public:
             return true;
         }
 
-        size_t array_size = m_target.getArraySize();
+        const typename AdapterType::Array targetArray = m_target.asArray();
+        const size_t array_size = targetArray.size();
 
         // Empty arrays are always valid
         if (array_size == 0) {
@@ -1374,7 +1375,6 @@ public:
 
         bool validated = true;
 
-        const typename AdapterType::Array targetArray = m_target.asArray();
         const typename AdapterType::Array::const_iterator end = targetArray.end();
 
         typename AdapterType::Array::const_iterator outerItr = targetArray.begin();
-- 
2.43.0


From 62761c4a219dd8ea960c54037c0b214c4708be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 05/38] fix: percent-encode % in schema registry paths

---
 include/valijson/schema_parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index ad268e4..8aeade3 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -283,6 +283,8 @@ private:
                 result += "~0";
             } else if (c == '/') {
                 result += "~1";
+            } else if (c == '%') {
+                result += "%25";
             } else {
                 result += c;
             }
-- 
2.43.0


From e7af9678bc995fefb24e2d6f6ecc5dff33b2c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 06/38] fix: do not report additional items errors for items
 that failed their own schema

---
 include/valijson/validation_visitor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index be4c8a7..aed8c0c 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1591,11 +1591,11 @@ private:
 
             // Validate current array item
             ValidationVisitor validator(*itr, newPath, m_strictTypes, m_strictDateTime, m_results, m_regexesCache);
-            if (validator.validateSchema(*subschema)) {
-                if (m_numValidated) {
-                    (*m_numValidated)++;
-                }
+            if (m_numValidated) {
+                (*m_numValidated)++;
+            }
 
+            if (validator.validateSchema(*subschema)) {
                 return m_continueOnSuccess;
             }
 
-- 
2.43.0


From 25b64659cc2767b3fc55fd9d566c678a2a909957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 07/38] fix: report an error when a false schema or
 propertyNames rejects a value

---
 include/valijson/validation_visitor.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index aed8c0c..9c97882 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -105,6 +105,9 @@ public:
     bool validateSchema(const Subschema &subschema)
     {
         if (subschema.getAlwaysInvalid()) {
+            if (m_results) {
+                m_results->pushError(m_path, "No value is permitted by a boolean schema that is false.");
+            }
             return false;
         }
 
@@ -1222,6 +1225,10 @@ public:
                 stringAdapter, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
 
             if (!validator.validateSchema(*constraint.getSubschema())) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Failed to validate property name '" + m.first +
+                            "' against schema set by 'propertyNames' constraint.");
+                }
                 return false;
             }
         }
-- 
2.43.0


From 6dced7f7a4f02e6e53c463a87db0dec832f059a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 08/38] fix: do not report errors of rejected union type
 schemas for a valid value

---
 include/valijson/validation_visitor.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 9c97882..a813082 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1343,11 +1343,19 @@ public:
         // Check schema-based types
         {
             unsigned int numValidated = 0;
+            ValidationResults childResults;
+            ValidationVisitor<AdapterType, RegexEngine> v(
+                m_target, m_path, m_strictTypes, m_strictDateTime,
+                m_results ? &childResults : nullptr, m_regexesCache);
             constraint.applyToSchemaTypes(
-                    ValidateSubschemas(m_target, m_path, false, true, *this, nullptr, &numValidated, nullptr));
+                    ValidateSubschemas(m_target, m_path, false, true, v, nullptr, &numValidated, nullptr));
             if (numValidated > 0) {
                 return true;
             } else if (m_results) {
+                ValidationResults::Error childError;
+                while (childResults.popError(childError)) {
+                    m_results->pushError(childError);
+                }
                 m_results->pushError(m_path, "Value type not permitted by 'type' constraint.");
             }
         }
-- 
2.43.0


From 6cc747c8ce4dd954f0c8c9e239c13a20d4e8a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 09/38] fix: require a four digit year in date and date-time
 formats

---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index a813082..b7962e0 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -415,7 +415,7 @@ public:
         const std::string format = constraint.getFormat();
         if (format == "date") {
             // Matches dates like: 2022-07-18
-            static const internal::regex date_regex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
+            static const internal::regex date_regex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, date_regex)) {
                 const auto year = std::stoi(matches[1].str());
@@ -462,8 +462,8 @@ public:
         } else if (format == "date-time") {
             // Strict mode matches date/times like: 2022-07-18T16:52:45Z, 2022-07-18T16:52:45+02:00
             // Permissive mode also matches date/times like: 2022-07-18T16:52:45
-            static const internal::regex strictRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
-            static const internal::regex permissiveRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex strictRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex permissiveRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto year = std::stoi(matches[1].str());
-- 
2.43.0


From 276ff701ee0f7cd387d768bf4c5c28cab8d502d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 10/38] fix: ignore non-numeric strings for multipleOf in
 strict mode

---
 include/valijson/validation_visitor.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index b7962e0..a98fe26 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -865,6 +865,11 @@ public:
      */
     bool visit(const MultipleOfDoubleConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const double divisor = constraint.getDivisor();
 
         double d = 0.;
@@ -936,6 +941,11 @@ public:
      */
     bool visit(const MultipleOfIntConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const int64_t divisor = constraint.getDivisor();
 
         int64_t i = 0;
-- 
2.43.0


From 994a172a8f12791713ace10c5ea1fd63b06ca08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 11/38] fix: reject numbers with a fractional part for integer
 multipleOf

---
 include/valijson/validation_visitor.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index a98fe26..8c45409 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -977,6 +977,13 @@ public:
                 }
                 return true;
             }
+            // A number with a fractional part cannot be a multiple of an integer
+            if (std::trunc(d) != d) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+                }
+                return false;
+            }
             i = static_cast<int64_t>(d);
         } else {
             return true;
-- 
2.43.0


From d4a27215948309380384f847dd55a780ce89f363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 12/38] fix: reject a multipleOf or divisibleBy divisor that is
 not positive

---
 include/valijson/schema_parser.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 8aeade3..8d1f854 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2191,8 +2191,13 @@ private:
     template<typename AdapterType>
     constraints::MultipleOfDoubleConstraint makeMultipleOfDoubleConstraint(const AdapterType &node)
     {
+        const double divisor = node.asDouble();
+        if (!(divisor > 0)) {
+            throwRuntimeError("Expected a positive number for 'multipleOf' or 'divisibleBy' constraint.");
+        }
+
         constraints::MultipleOfDoubleConstraint constraint;
-        constraint.setDivisor(node.asDouble());
+        constraint.setDivisor(divisor);
         return constraint;
     }
 
@@ -2207,8 +2212,13 @@ private:
     template<typename AdapterType>
     constraints::MultipleOfIntConstraint makeMultipleOfIntConstraint(const AdapterType &node)
     {
+        const int64_t divisor = node.asInteger();
+        if (divisor <= 0) {
+            throwRuntimeError("Expected a positive number for 'multipleOf' or 'divisibleBy' constraint.");
+        }
+
         constraints::MultipleOfIntConstraint constraint;
-        constraint.setDivisor(node.asInteger());
+        constraint.setDivisor(divisor);
         return constraint;
     }
 
-- 
2.43.0


From 8deb8637de0b36b3e8f4114cd2941528e2c35590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 13/38] fix: reject type 'any' in draft 7 schemas

---
 include/valijson/schema_parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 8d1f854..ecad3aa 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2552,8 +2552,8 @@ private:
 
         if (node.maybeString()) {
             const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(node.getString());
-            if (type == TypeConstraint::kAny && m_version == kDraft4) {
-                throwRuntimeError("'any' type is not supported in version 4 schemas.");
+            if (type == TypeConstraint::kAny && m_version != kDraft3) {
+                throwRuntimeError("'any' type is only supported in version 3 schemas.");
             }
 
             constraint.addNamedType(type);
@@ -2563,8 +2563,8 @@ private:
             for (const AdapterType v : node.getArray()) {
                 if (v.maybeString()) {
                     const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
-                    if (type == TypeConstraint::kAny && m_version == kDraft4) {
-                        throwRuntimeError("'any' type is not supported in version 4 schemas.");
+                    if (type == TypeConstraint::kAny && m_version != kDraft3) {
+                        throwRuntimeError("'any' type is only supported in version 3 schemas.");
                     }
 
                     constraint.addNamedType(type);
-- 
2.43.0


From 206ad60c7d3e6cc1b3e11e6e7272a6a8403dd101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 14/38] fix: use the document cache for remote references at
 the schema root

---
 include/valijson/schema_parser.hpp | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index ecad3aa..40941f4 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1266,22 +1266,30 @@ private:
                 return;
             }
 
-            // Resolve reference against remote document
-            if (!fetchDoc) {
-                throwRuntimeError("Fetching of remote JSON References not enabled.");
-            }
+            const typename DocumentCache<AdapterType>::DocumentType *newDoc = nullptr;
 
-            const typename DocumentCache<AdapterType>::DocumentType *newDoc = fetchDoc(*actualDocumentUri);
+            // Have we seen this document before?
+            const auto docCacheItr = docCache.find(*actualDocumentUri);
+            if (docCacheItr != docCache.end()) {
+                newDoc = docCacheItr->second;
+            } else {
+                // Resolve reference against remote document
+                if (!fetchDoc) {
+                    throwRuntimeError("Fetching of remote JSON References not enabled.");
+                }
 
-            // Can't proceed without the remote document
-            if (!newDoc) {
-                throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-            }
+                newDoc = fetchDoc(*actualDocumentUri);
+
+                // Can't proceed without the remote document
+                if (!newDoc) {
+                    throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
+                }
 
-            // Add to document cache
-            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+                // Add to document cache
+                typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
 
-            docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+            }
 
             const AdapterType newRootNode(*newDoc);
 
-- 
2.43.0


From d30e99716e76d805d6621090b508481dfb14956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 15/38] fix: reject percent escapes that are not two
 hexadecimal digits

---
 include/valijson/internal/json_pointer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 98e2576..40419d9 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>
+#include <cctype>
 #include <cerrno>
 #include <cstddef>
 #include <cstring>
@@ -53,15 +54,14 @@ inline char decodePercentEncodedChar(const std::string &digits)
                 "expected two characters");
     }
 
-    errno = 0;
-    const char *begin = digits.c_str();
-    char *end = nullptr;
-    const unsigned long value = strtoul(begin, &end, 16);
-    if (end != begin && *end != '\0') {
+    if (!isxdigit(static_cast<unsigned char>(digits[0])) ||
+            !isxdigit(static_cast<unsigned char>(digits[1]))) {
         throwRuntimeError("Failed to decode %-encoded character '" +
                 digits + "'");
     }
 
+    const unsigned long value = strtoul(digits.c_str(), nullptr, 16);
+
     return char(value);
 }
 
-- 
2.43.0


From c7d45b2e89bd62403edb8ca1b0aa3d4e367c9095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 16/38] fix: percent-decode JSON Pointer tokens before
 replacing ~0 and ~1

---
 include/valijson/internal/json_pointer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 40419d9..650b110 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -98,10 +98,6 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 {
     std::string token(begin, end);
 
-    // Replace JSON Pointer-specific escaped character sequences
-    replaceAllInPlace(token, "~1", "/");
-    replaceAllInPlace(token, "~0", "~");
-
     // Replace %-encoded character sequences with their actual characters
     for (size_t n = token.find('%'); n != std::string::npos;
             n = token.find('%', n + 1)) {
@@ -119,6 +115,10 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 #endif
     }
 
+    // Replace JSON Pointer-specific escaped character sequences
+    replaceAllInPlace(token, "~1", "/");
+    replaceAllInPlace(token, "~0", "~");
+
     return token;
 }
 
-- 
2.43.0


From 84b2a09772e662af017be40db402c0062f8cd613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 17/38] fix: reject JSON Pointer array indices that are not
 plain decimal numbers

---
 include/valijson/internal/json_pointer.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 650b110..6f8fa92 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -195,7 +195,14 @@ inline AdapterType resolveJsonPointer(
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
-            // Fragment must be non-negative integer
+            // Fragment must be non-negative integer, without sign or leading zero
+            if (referenceToken.find_first_not_of("0123456789") != std::string::npos ||
+                    (referenceToken.size() > 1 && referenceToken[0] == '0')) {
+                throwRuntimeError("Expected reference token to contain a "
+                        "non-negative integer to identify an element in the "
+                        "current array; actual token: " + referenceToken);
+            }
+
             const uint64_t index = std::stoul(referenceToken);
             typedef typename AdapterType::Array Array;
             const Array arr = node.asArray();
-- 
2.43.0


From a9c38b6bb3c4b92137da5da705b37d22239b7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 18/38] fix: do not treat the fragment of a schema identifier
 as part of the base URI

---
 include/valijson/schema_parser.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 40941f4..6c24938 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -310,6 +310,27 @@ private:
         return internal::uri::resolveRelativeUri(*currentScope, id);
     }
 
+    /**
+     * @brief  Base URI for the subschemas of a schema with a resolved identifier
+     *
+     * A fragment gives a name to a schema, but is never part of the base URI.
+     */
+    static std::optional<std::string> scopeForId(
+            const std::optional<std::string> &currentScope,
+            const std::optional<std::string> &resolvedId)
+    {
+        if (!resolvedId) {
+            return currentScope;
+        }
+
+        const std::string::size_type fragmentPos = resolvedId->find('#');
+        if (fragmentPos == 0) {
+            return currentScope;
+        }
+
+        return resolvedId->substr(0, fragmentPos);
+    }
+
     template<typename AdapterType>
     bool findSchemaById(
             const AdapterType &node,
@@ -332,6 +353,7 @@ private:
                     foundScope = currentScope;
                     return true;
                 }
+                updatedScope = scopeForId(currentScope, updatedScope);
             }
 
             for (const typename AdapterType::ObjectMember member : object) {
@@ -377,7 +399,8 @@ private:
             const typename AdapterType::Object::const_iterator itr =
                     object.find(idKeyword());
             if (itr != object.end() && itr->second.maybeString()) {
-                updatedScope = resolveId(currentScope, itr->second.asString());
+                updatedScope = scopeForId(currentScope,
+                        resolveId(currentScope, itr->second.asString()));
             }
 
             for (const typename AdapterType::ObjectMember member : object) {
@@ -822,6 +845,7 @@ private:
 
         if (foundId && updatedScope) {
             schemaRegistry.emplace(*updatedScope, &subschema);
+            updatedScope = scopeForId(currentScope, updatedScope);
         }
 
         // Add the type constraint first to be the first one to check because other constraints may rely on it
-- 
2.43.0


From dc2db2f4099c4136e2ac75e36355163ac5bd552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 19/38] fix: ignore an empty fragment at the end of a schema
 identifier

---
 include/valijson/schema_parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 6c24938..e1464da 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -302,6 +302,11 @@ private:
             const std::optional<std::string> &currentScope,
             const std::string &id) const
     {
+        // An identifier with an empty fragment is the one without a fragment
+        if (id.size() > 1 && id.back() == '#') {
+            return resolveId(currentScope, id.substr(0, id.size() - 1));
+        }
+
         if (!currentScope || internal::uri::isUriAbsolute(id) ||
                 internal::uri::isUrn(id)) {
             return id;
-- 
2.43.0


From 2235e5cf407a98433b746c3f308ebdbdfa8abe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 20/38] fix: follow a reference found at the target of a
 reference into an identified schema

---
 include/valijson/schema_parser.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index e1464da..6ec0c27 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -636,6 +636,20 @@ private:
                             actualJsonPointer, "", referencedScope);
                 }
 
+                // Continue to resolve references until a concrete node is found
+                std::string nestedRef;
+                if (extractJsonReference(referencedAdapter, nestedRef)) {
+                    if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
+                        throwRuntimeError("found cycle while resolving JSON reference");
+                    }
+                    newRegistryKeys.push_back(queryKey);
+                    return makeOrReuseSchema(rootSchema, registeredRoot,
+                            referencedAdapter, referencedScope,
+                            actualJsonPointer, fetchDoc, parentSubschema,
+                            ownName, docCache, schemaRegistry,
+                            newRegistryKeys);
+                }
+
                 const Subschema *subschema = rootSchema.createSubschema();
                 newRegistryKeys.push_back(queryKey);
                 updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
-- 
2.43.0


From cf9428a8fc89a35d03d10b3913e312b4eb005fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 21/38] fix: use the base URI of the target when the schema
 root refers into an identified schema

---
 include/valijson/schema_parser.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 6ec0c27..fc7f692 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1302,8 +1302,14 @@ private:
                         : internal::json_pointer::resolveJsonPointerStrict(
                                 registeredRoot, actualJsonPointer);
 
+                std::optional<std::string> referencedScope = registeredScope;
+                if (!actualJsonPointer.empty()) {
+                    findScopeForPath(registeredRoot, registeredScope,
+                            actualJsonPointer, "", referencedScope);
+                }
+
                 resolveThenPopulateSchema(rootSchema, registeredRoot,
-                        referencedAdapter, subschema, registeredScope,
+                        referencedAdapter, subschema, referencedScope,
                         actualJsonPointer, fetchDoc,
                         parentSchema, ownName, docCache, schemaRegistry);
                 return;
-- 
2.43.0


From 257fd34bed4d7dd00a2eb2a9b8867aa798ddea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 22/38] fix: detect reference cycles that pass through remote
 documents

---
 include/valijson/schema_parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index fc7f692..a9ceb69 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -700,6 +700,10 @@ private:
                     internal::json_pointer::resolveJsonPointerStrict(newRootNode,
                             actualJsonPointer);
 
+            if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
+                throwRuntimeError("found cycle while resolving JSON reference");
+            }
+
             newRegistryKeys.push_back(queryKey);
 
             // Populate the schema, starting from the referenced node, with
-- 
2.43.0


From aa58cd3774a85834266de38e668c26bfb9b0c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:18 +0000
Subject: [PATCH 23/38] fix: do not let subschemas refer to the address of a
 movable Schema object

---
 include/valijson/schema_parser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index a9ceb69..dd5e899 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -867,7 +867,11 @@ private:
         }
 
         if (foundId && updatedScope) {
-            schemaRegistry.emplace(*updatedScope, &subschema);
+            // The Schema object itself can be moved, so other subschemas must
+            // not hold a pointer to it
+            if (&subschema != rootSchema.root()) {
+                schemaRegistry.emplace(*updatedScope, &subschema);
+            }
             updatedScope = scopeForId(currentScope, updatedScope);
         }
 
-- 
2.43.0


From 48ef816ab871504539a5e9c78cdf15be4a9ce935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 24/38] fix: resolve references inside identified schemas
 against the whole document

References inside a schema that was reached by its identifier could only see
that schema, pointers from an inline identified schema ignored its base URI, and
locations relative to different base URIs could share a registry key.
---
 include/valijson/schema_parser.hpp | 177 +++++++++++++++++------------
 1 file changed, 107 insertions(+), 70 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index dd5e899..9899d80 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -336,6 +336,21 @@ private:
         return resolvedId->substr(0, fragmentPos);
     }
 
+    /**
+     * @brief  Key for a location in the schema registry
+     *
+     * @param  scope  URI of the document or identified schema
+     * @param  path   JSON Pointer relative to that document or schema
+     */
+    static std::string makeRegistryKey(
+            const std::optional<std::string> &scope,
+            const std::string &path)
+    {
+        const std::string uri = scope ? *scope : "";
+
+        return path.empty() ? uri : (uri + "#" + path);
+    }
+
     template<typename AdapterType>
     bool findSchemaById(
             const AdapterType &node,
@@ -384,53 +399,48 @@ private:
         return false;
     }
 
+    /**
+     * @brief  Find the base URI that applies to a node
+     *
+     * @param  node          Node that the path is relative to
+     * @param  currentScope  Base URI that applies to that node
+     * @param  targetPath    JSON Pointer for the node of interest
+     * @param  foundScope    Base URI that applies to the node of interest
+     * @param  foundPath     JSON Pointer for the node of interest, relative to
+     *                       the schema that determines its base URI
+     */
     template<typename AdapterType>
-    bool findScopeForPath(
+    void findScopeForPath(
             const AdapterType &node,
             const std::optional<std::string> &currentScope,
             const std::string &targetPath,
-            const std::string &nodePath,
-            std::optional<std::string> &foundScope) const
+            std::optional<std::string> &foundScope,
+            std::string &foundPath) const
     {
-        if (nodePath == targetPath) {
-            foundScope = currentScope;
-            return true;
-        }
-
-        std::optional<std::string> updatedScope = currentScope;
+        foundScope = currentScope;
+        foundPath = targetPath;
+
+        for (std::string::size_type pos = targetPath.find('/');
+                pos != std::string::npos; pos = targetPath.find('/', pos + 1)) {
+            const AdapterType ancestor =
+                    internal::json_pointer::resolveJsonPointerStrict(
+                            node, targetPath.substr(0, pos));
+            if (!ancestor.isObject()) {
+                continue;
+            }
 
-        if (node.isObject()) {
-            const typename AdapterType::Object object = node.asObject();
+            const typename AdapterType::Object object = ancestor.asObject();
             const typename AdapterType::Object::const_iterator itr =
                     object.find(idKeyword());
             if (itr != object.end() && itr->second.maybeString()) {
-                updatedScope = scopeForId(currentScope,
-                        resolveId(currentScope, itr->second.asString()));
-            }
-
-            for (const typename AdapterType::ObjectMember member : object) {
-                const std::string childPath =
-                        nodePath + "/" + escapeJsonPointerToken(member.first);
-                if (findScopeForPath(member.second, updatedScope, targetPath,
-                            childPath, foundScope)) {
-                    return true;
-                }
-            }
-        } else {
-            if (node.maybeArray()) {
-                size_t index = 0;
-                for (const AdapterType item : node.asArray()) {
-                    const std::string childPath = nodePath + "/" +
-                            std::to_string(index++);
-                    if (findScopeForPath(item, updatedScope, targetPath,
-                                childPath, foundScope)) {
-                        return true;
-                    }
+                const std::optional<std::string> updatedScope = scopeForId(
+                        foundScope, resolveId(foundScope, itr->second.asString()));
+                if (updatedScope != foundScope) {
+                    foundScope = updatedScope;
+                    foundPath = targetPath.substr(pos);
                 }
             }
         }
-
-        return false;
     }
 
     /**
@@ -533,7 +543,7 @@ private:
 
             // Construct a key that we can use to search the schema registry for
             // a schema corresponding to the current node
-            const std::string schemaRegistryKey = currentScope ? (*currentScope + nodePath) : nodePath;
+            const std::string schemaRegistryKey = makeRegistryKey(currentScope, nodePath);
 
             // Retrieve an existing schema from the registry if possible
             const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, schemaRegistryKey);
@@ -577,7 +587,7 @@ private:
         const std::optional<std::string> actualDocumentUri = resolveDocumentUri(currentScope, documentUri);
 
         // Construct a key to search the schema registry for an existing schema
-        const std::string queryKey = actualDocumentUri ? (*actualDocumentUri + actualJsonPointer) : actualJsonPointer;
+        const std::string queryKey = makeRegistryKey(actualDocumentUri, actualJsonPointer);
 
         if (!actualJsonPointer.empty() && actualJsonPointer[0] != '/') {
             const std::string idRef = actualDocumentUri ?
@@ -601,8 +611,12 @@ private:
                 newRegistryKeys.push_back(idRef);
                 updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
 
-                populateSchema(rootSchema, registeredRoot, registeredRoot,
-                        *subschema, registeredScope, "", fetchDoc,
+                std::string relativePath;
+                findScopeForPath(rootNode, currentScope, registeredPath,
+                        registeredScope, relativePath);
+
+                populateSchema(rootSchema, rootNode, registeredRoot,
+                        *subschema, registeredScope, relativePath, fetchDoc,
                         parentSubschema, ownName, docCache, schemaRegistry);
 
                 return subschema;
@@ -617,7 +631,7 @@ private:
             return registeredPtr;
         }
 
-        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
+        if (actualDocumentUri) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
             if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
@@ -630,11 +644,10 @@ private:
                         : internal::json_pointer::resolveJsonPointerStrict(
                                 registeredRoot, actualJsonPointer);
 
-                std::optional<std::string> referencedScope = registeredScope;
-                if (!actualJsonPointer.empty()) {
-                    findScopeForPath(registeredRoot, registeredScope,
-                            actualJsonPointer, "", referencedScope);
-                }
+                std::optional<std::string> referencedScope;
+                std::string referencedPath;
+                findScopeForPath(registeredRoot, registeredScope,
+                        actualJsonPointer, referencedScope, referencedPath);
 
                 // Continue to resolve references until a concrete node is found
                 std::string nestedRef;
@@ -643,9 +656,9 @@ private:
                         throwRuntimeError("found cycle while resolving JSON reference");
                     }
                     newRegistryKeys.push_back(queryKey);
-                    return makeOrReuseSchema(rootSchema, registeredRoot,
+                    return makeOrReuseSchema(rootSchema, rootNode,
                             referencedAdapter, referencedScope,
-                            actualJsonPointer, fetchDoc, parentSubschema,
+                            referencedPath, fetchDoc, parentSubschema,
                             ownName, docCache, schemaRegistry,
                             newRegistryKeys);
                 }
@@ -654,14 +667,16 @@ private:
                 newRegistryKeys.push_back(queryKey);
                 updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
 
-                populateSchema(rootSchema, registeredRoot, referencedAdapter,
-                        *subschema, referencedScope, actualJsonPointer,
+                populateSchema(rootSchema, rootNode, referencedAdapter,
+                        *subschema, referencedScope, referencedPath,
                         fetchDoc, parentSubschema, ownName, docCache,
                         schemaRegistry);
 
                 return subschema;
             }
+        }
 
+        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
             const typename FunctionPtrs<AdapterType>::DocumentType *newDoc = nullptr;
 
             // Have we seen this document before?
@@ -706,10 +721,15 @@ private:
 
             newRegistryKeys.push_back(queryKey);
 
+            std::optional<std::string> referencedScope;
+            std::string referencedPath;
+            findScopeForPath(newRootNode, actualDocumentUri, actualJsonPointer,
+                    referencedScope, referencedPath);
+
             // Populate the schema, starting from the referenced node, with
             // nested JSON References resolved relative to the new root node
             return makeOrReuseSchema(rootSchema, newRootNode, referencedAdapter,
-                    actualDocumentUri, actualJsonPointer, fetchDoc, parentSubschema,
+                    referencedScope, referencedPath, fetchDoc, parentSubschema,
                     ownName, docCache, schemaRegistry, newRegistryKeys);
 
         }
@@ -726,14 +746,15 @@ private:
 
         newRegistryKeys.push_back(queryKey);
 
-        std::optional<std::string> referencedScope = currentScope;
-        findScopeForPath(rootNode, currentScope, actualJsonPointer, "",
-                referencedScope);
+        std::optional<std::string> referencedScope;
+        std::string referencedPath;
+        findScopeForPath(rootNode, currentScope, actualJsonPointer,
+                referencedScope, referencedPath);
 
         // Populate the schema, starting from the referenced node, with
         // nested JSON References resolved relative to the new root node
         return makeOrReuseSchema(rootSchema, rootNode, referencedAdapter,
-                referencedScope, actualJsonPointer, fetchDoc, parentSubschema,
+                referencedScope, referencedPath, fetchDoc, parentSubschema,
                 ownName, docCache, schemaRegistry, newRegistryKeys);
     }
 
@@ -818,7 +839,7 @@ private:
         const AdapterType &node,
         const Subschema &subschema,
         const std::optional<std::string>& currentScope,
-        const std::string &nodePath,
+        std::string nodePath,
         const typename FunctionPtrs<AdapterType>::FetchDoc fetchDoc,
         const Subschema *parentSubschema,
         const std::string *ownName,
@@ -873,6 +894,11 @@ private:
                 schemaRegistry.emplace(*updatedScope, &subschema);
             }
             updatedScope = scopeForId(currentScope, updatedScope);
+
+            // Paths are relative to the schema that determines the base URI
+            if (updatedScope != currentScope) {
+                nodePath.clear();
+            }
         }
 
         // Add the type constraint first to be the first one to check because other constraints may rely on it
@@ -1289,15 +1315,19 @@ private:
                         internal::json_pointer::resolveJsonPointerStrict(
                                 rootNode, registeredPath);
 
-                resolveThenPopulateSchema(rootSchema, registeredRoot,
+                std::string relativePath;
+                findScopeForPath(rootNode, currentScope, registeredPath,
+                        registeredScope, relativePath);
+
+                resolveThenPopulateSchema(rootSchema, rootNode,
                         registeredRoot, subschema, registeredScope,
-                        "", fetchDoc, parentSchema, ownName,
+                        relativePath, fetchDoc, parentSchema, ownName,
                         docCache, schemaRegistry);
                 return;
             }
         }
 
-        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
+        if (actualDocumentUri) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
             if (findSchemaById(rootNode, currentScope, *actualDocumentUri,
@@ -1310,19 +1340,20 @@ private:
                         : internal::json_pointer::resolveJsonPointerStrict(
                                 registeredRoot, actualJsonPointer);
 
-                std::optional<std::string> referencedScope = registeredScope;
-                if (!actualJsonPointer.empty()) {
-                    findScopeForPath(registeredRoot, registeredScope,
-                            actualJsonPointer, "", referencedScope);
-                }
+                std::optional<std::string> referencedScope;
+                std::string referencedPath;
+                findScopeForPath(registeredRoot, registeredScope,
+                        actualJsonPointer, referencedScope, referencedPath);
 
-                resolveThenPopulateSchema(rootSchema, registeredRoot,
+                resolveThenPopulateSchema(rootSchema, rootNode,
                         referencedAdapter, subschema, referencedScope,
-                        actualJsonPointer, fetchDoc,
+                        referencedPath, fetchDoc,
                         parentSchema, ownName, docCache, schemaRegistry);
                 return;
             }
+        }
 
+        if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
             const typename DocumentCache<AdapterType>::DocumentType *newDoc = nullptr;
 
             // Have we seen this document before?
@@ -1354,20 +1385,26 @@ private:
                 internal::json_pointer::resolveJsonPointerStrict(newRootNode, actualJsonPointer);
 
             // TODO: Need to detect degenerate circular references
+            std::optional<std::string> referencedScope;
+            std::string referencedPath;
+            findScopeForPath(newRootNode, actualDocumentUri, actualJsonPointer,
+                    referencedScope, referencedPath);
+
             resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
-                    subschema, actualDocumentUri, actualJsonPointer, fetchDoc,
+                    subschema, referencedScope, referencedPath, fetchDoc,
                     parentSchema, ownName, docCache, schemaRegistry);
 
         } else if (!actualJsonPointer.empty()) {
             const AdapterType &referencedAdapter =
                     internal::json_pointer::resolveJsonPointerStrict(rootNode, actualJsonPointer);
 
-            std::optional<std::string> referencedScope = currentScope;
-            findScopeForPath(rootNode, currentScope, actualJsonPointer, "",
-                    referencedScope);
+            std::optional<std::string> referencedScope;
+            std::string referencedPath;
+            findScopeForPath(rootNode, currentScope, actualJsonPointer,
+                    referencedScope, referencedPath);
 
             resolveThenPopulateSchema(rootSchema, rootNode, referencedAdapter,
-                    subschema, referencedScope, actualJsonPointer, fetchDoc,
+                    subschema, referencedScope, referencedPath, fetchDoc,
                     parentSchema, ownName, docCache, schemaRegistry);
         } else {
             throwRuntimeError("Cannot resolve reference \"" + jsonRef + "\".");
-- 
2.43.0


From 878849db70f26929df52dc9acf5f463f7bf59d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 25/38] fix: ignore identifiers next to a $ref when resolving
 references

---
 include/valijson/schema_parser.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 9899d80..95c332c 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -293,6 +293,17 @@ private:
         return result;
     }
 
+    /**
+     * @brief  Check for a reference, which hides all other keywords of a schema
+     */
+    template<typename ObjectType>
+    static bool hasReference(const ObjectType &object)
+    {
+        const typename ObjectType::const_iterator itr = object.find("$ref");
+
+        return itr != object.end() && itr->second.isString();
+    }
+
     const char *idKeyword() const
     {
         return m_version == kDraft7 ? "$id" : "id";
@@ -366,7 +377,7 @@ private:
             const typename AdapterType::Object object = node.asObject();
             const typename AdapterType::Object::const_iterator itr =
                     object.find(idKeyword());
-            if (itr != object.end() && itr->second.maybeString()) {
+            if (itr != object.end() && itr->second.maybeString() && !hasReference(object)) {
                 updatedScope = resolveId(currentScope, itr->second.asString());
                 if (updatedScope && *updatedScope == targetUri) {
                     foundPath = nodePath;
@@ -432,7 +443,7 @@ private:
             const typename AdapterType::Object object = ancestor.asObject();
             const typename AdapterType::Object::const_iterator itr =
                     object.find(idKeyword());
-            if (itr != object.end() && itr->second.maybeString()) {
+            if (itr != object.end() && itr->second.maybeString() && !hasReference(object)) {
                 const std::optional<std::string> updatedScope = scopeForId(
                         foundScope, resolveId(foundScope, itr->second.asString()));
                 if (updatedScope != foundScope) {
-- 
2.43.0


From 87a611b6af8d7672d00c8fcd45647920890e74bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 26/38] fix: support references to named schemas in remote
 documents

---
 include/valijson/schema_parser.hpp | 39 +++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 95c332c..b18e087 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -410,6 +410,33 @@ private:
         return false;
     }
 
+    /**
+     * @brief  Find the path that a reference into a remote document leads to
+     *
+     * @param  rootNode     Root of the remote document
+     * @param  documentUri  URI that was used to retrieve the document
+     * @param  fragment     JSON Pointer, or the name of an identified schema
+     */
+    template<typename AdapterType>
+    std::string findTargetPath(
+            const AdapterType &rootNode,
+            const std::string &documentUri,
+            const std::string &fragment) const
+    {
+        if (fragment.empty() || fragment[0] == '/') {
+            return fragment;
+        }
+
+        std::string foundPath;
+        std::optional<std::string> foundScope;
+        if (!findSchemaById(rootNode, std::optional<std::string>(documentUri),
+                    documentUri + "#" + fragment, "", foundPath, foundScope)) {
+            throwRuntimeError("Cannot resolve reference \"" + documentUri + "#" + fragment + "\".");
+        }
+
+        return foundPath;
+    }
+
     /**
      * @brief  Find the base URI that applies to a node
      *
@@ -722,9 +749,11 @@ private:
             const AdapterType newRootNode(*newDoc);
 
             // Find where we need to be in the document
+            const std::string targetPath = findTargetPath(newRootNode,
+                    *actualDocumentUri, actualJsonPointer);
             const AdapterType &referencedAdapter =
                     internal::json_pointer::resolveJsonPointerStrict(newRootNode,
-                            actualJsonPointer);
+                            targetPath);
 
             if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
                 throwRuntimeError("found cycle while resolving JSON reference");
@@ -734,7 +763,7 @@ private:
 
             std::optional<std::string> referencedScope;
             std::string referencedPath;
-            findScopeForPath(newRootNode, actualDocumentUri, actualJsonPointer,
+            findScopeForPath(newRootNode, actualDocumentUri, targetPath,
                     referencedScope, referencedPath);
 
             // Populate the schema, starting from the referenced node, with
@@ -1392,13 +1421,15 @@ private:
 
             const AdapterType newRootNode(*newDoc);
 
+            const std::string targetPath = findTargetPath(newRootNode,
+                    *actualDocumentUri, actualJsonPointer);
             const AdapterType &referencedAdapter =
-                internal::json_pointer::resolveJsonPointerStrict(newRootNode, actualJsonPointer);
+                internal::json_pointer::resolveJsonPointerStrict(newRootNode, targetPath);
 
             // TODO: Need to detect degenerate circular references
             std::optional<std::string> referencedScope;
             std::string referencedPath;
-            findScopeForPath(newRootNode, actualDocumentUri, actualJsonPointer,
+            findScopeForPath(newRootNode, actualDocumentUri, targetPath,
                     referencedScope, referencedPath);
 
             resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
-- 
2.43.0


From 52c00f61a29623467208fba318facd7222e72b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:06 +0000
Subject: [PATCH 27/38] fix: support integers beyond 32 bits in the JsonCpp
 adapter

---
 include/valijson/adapters/jsoncpp_adapter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/jsoncpp_adapter.hpp b/include/valijson/adapters/jsoncpp_adapter.hpp
index 4a692a6..30508e9 100644
--- a/include/valijson/adapters/jsoncpp_adapter.hpp
+++ b/include/valijson/adapters/jsoncpp_adapter.hpp
@@ -327,8 +327,8 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isIntegral()) {
-            result = static_cast<int64_t>(m_value.asInt());
+        if (m_value.isInt64()) {
+            result = static_cast<int64_t>(m_value.asInt64());
             return true;
         }
 
@@ -406,7 +406,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.isIntegral() && !m_value.isBool();
+        return m_value.isInt64() && !m_value.isBool();
     }
 
     bool isNull() const
-- 
2.43.0


From 6356608c17dddd8cd1fa1ab5029ec97943b35b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 28/38] fix: keep embedded null characters in strings read
 through the Boost.JSON adapter

---
 include/valijson/adapters/boost_json_adapter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 2fa5d25..8a80cc8 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -389,7 +389,8 @@ public:
     bool getString(std::string &result) const
     {
         if (m_value.is_string()) {
-            result = m_value.get_string().c_str();
+            const boost::json::string &value = m_value.get_string();
+            result.assign(value.data(), value.size());
             return true;
         }
 
-- 
2.43.0


From 36ac2b7f87fa30f9429164c2588fe2234925572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 29/38] fix: represent empty Poco arrays and objects by
 containers and not null pointers

---
 include/valijson/adapters/poco_json_adapter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index d50017c..7265c1e 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -110,7 +110,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty array.
     */
-    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr();
+    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr(new Poco::JSON::Array());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -195,7 +195,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty object.
     */
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -442,7 +442,7 @@ public:
 private:
 
     /// Shared PocoJson value used to represent an empty object
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
-- 
2.43.0


From 8816c681f7266dc95ba3dd113ecb716d7d27e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 30/38] fix: let default constructed Boost.JSON and Qt adapters
 contain an empty object

---
 include/valijson/adapters/boost_json_adapter.hpp | 2 +-
 include/valijson/adapters/qtjson_adapter.hpp     | 2 +-
 include/valijson/adapters/qvariant_adapter.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 8a80cc8..1b54811 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -445,7 +445,7 @@ public:
 private:
 
     /// Shared Boost.JSON instance used to represent empty object.
-    static inline const boost::json::value emptyObject;
+    static inline const boost::json::value emptyObject = boost::json::object();
 
     /// Reference to the contained Boost.JSON value.
     const boost::json::value &m_value;
diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index 86d6c1b..b13bd86 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -444,7 +444,7 @@ public:
 private:
 
     /// Shared QtJson value instance used to represent an empty object
-    static inline const QJsonValue emptyObject;
+    static inline const QJsonValue emptyObject = QJsonObject();
 
     /// Reference to the contained QtJson value.
     const QJsonValue m_value;
diff --git a/include/valijson/adapters/qvariant_adapter.hpp b/include/valijson/adapters/qvariant_adapter.hpp
index a055555..b4b3d8b 100644
--- a/include/valijson/adapters/qvariant_adapter.hpp
+++ b/include/valijson/adapters/qvariant_adapter.hpp
@@ -463,7 +463,7 @@ public:
 private:
 
     /// Shared QtVariant value instance used to represent an empty object
-    static inline const QVariant emptyObject;
+    static inline const QVariant emptyObject = QVariantMap();
 
     /// Reference to the contained QtVariant value.
     const QVariant m_value;
-- 
2.43.0


From 8e30c65c98a7b552eede923bcc7b180ecf8298b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 31/38] fix: convert property names held by the string adapter
 like other strings

---
 .../valijson/adapters/std_string_adapter.hpp  | 43 +++++++++++++++----
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 94dc8aa..313d63e 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -117,34 +117,59 @@ public:
 
     bool asBool() const override
     {
-        return true;
+        bool result;
+        if (asBool(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a boolean");
     }
 
     bool asBool(bool &result) const override
     {
-        result = true;
-        return true;
+        if (maybeBool()) {
+            result = m_value == "true";
+            return true;
+        }
+
+        return false;
     }
 
     double asDouble() const override
     {
-        return 0;
+        double result;
+        if (asDouble(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a double");
     }
 
     bool asDouble(double &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseDouble(m_value, result);
     }
 
     int64_t asInteger() const override
     {
-        return 0;
+        int64_t result;
+        if (asInteger(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to an integer");
     }
 
     bool asInteger(int64_t &result) const override
     {
-        result = 0;
+        std::istringstream i(m_value);
+        int64_t x;
+        char c;
+        if (!(i >> x) || i.get(c)) {
+            return false;
+        }
+
+        result = x;
         return true;
     }
 
@@ -338,7 +363,7 @@ public:
 
     bool maybeObject() const override
     {
-        return m_value.empty();
+        return false;
     }
 
     bool maybeString() const override
-- 
2.43.0


From 2f9f136345fc7cbe267e9edd838043fb3708e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 32/38] fix: compare the string adapter with other values
 without throwing

---
 include/valijson/adapters/std_string_adapter.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 313d63e..95201de 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -195,11 +195,19 @@ public:
 
     bool equalTo(const Adapter &other, bool strict) const override
     {
-        if (strict && !other.isString()) {
-            return false;
+        if (strict) {
+            return other.isString() && other.asString() == m_value;
+        } else if (maybeNull()) {
+            return other.maybeNull();
+        } else if (maybeBool()) {
+            return other.maybeBool() && other.asBool() == asBool();
+        } else if (maybeDouble()) {
+            return other.maybeDouble() && other.asDouble() == asDouble();
+        } else if (maybeInteger()) {
+            return other.maybeInteger() && other.asInteger() == asInteger();
         }
 
-        return m_value == other.asString();
+        return other.maybeString() && other.asString() == m_value;
     }
 
     FrozenValue* freeze() const override
-- 
2.43.0


From 1f51652d96ba2d3e3e0fb590e8fad232513e36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 33/38] fix: do not treat booleans as numbers in the Poco
 adapter

---
 include/valijson/adapters/poco_json_adapter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index 7265c1e..4c8b07e 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -338,7 +338,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isInteger()) {
+        if (isInteger()) {
             result = m_value.convert<int64_t>();
             return true;
         }
@@ -426,7 +426,7 @@ public:
 
     bool isNumber() const
     {
-        return m_value.isNumeric();
+        return !isBool() && m_value.isNumeric();
     }
 
     bool isObject() const
-- 
2.43.0


From 2af368ad477f4ab804c131a84428637369dde88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 34/38] fix: make frozen Poco JSON values independent of the
 containers they were copied from

---
 .../valijson/adapters/poco_json_adapter.hpp   | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index 4c8b07e..24db9ba 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -220,7 +220,7 @@ public:
     * @param  source  the PocoJson value to be copied
     */
     explicit PocoJsonFrozenValue(const Poco::Dynamic::Var &source)
-        : m_value(source)
+        : m_value(copy(source))
     { }
 
     virtual FrozenValue * clone() const
@@ -232,6 +232,35 @@ public:
 
 private:
 
+    /**
+    * @brief  Make a deep copy of a PocoJson value
+    *
+    * Arrays and objects are held by shared pointers, so copying a value of
+    * type Poco::Dynamic::Var does not copy their contents.
+    *
+    * @param  source  the PocoJson value to be copied
+    */
+    static Poco::Dynamic::Var copy(const Poco::Dynamic::Var &source)
+    {
+        if (source.type() == typeid(Poco::JSON::Array::Ptr)) {
+            Poco::JSON::Array::Ptr dest(new Poco::JSON::Array());
+            for (const Poco::Dynamic::Var &element : *source.extract<Poco::JSON::Array::Ptr>()) {
+                dest->add(copy(element));
+            }
+            return dest;
+        }
+
+        if (source.type() == typeid(Poco::JSON::Object::Ptr)) {
+            Poco::JSON::Object::Ptr dest(new Poco::JSON::Object());
+            for (const auto &member : *source.extract<Poco::JSON::Object::Ptr>()) {
+                dest->set(member.first, copy(member.second));
+            }
+            return dest;
+        }
+
+        return source;
+    }
+
     /// Stored PocoJson value
     Poco::Dynamic::Var m_value;
 };
-- 
2.43.0


From 35fa5a8a1a8c6d1192992defbd8f764fd69ffecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 35/38] fix: keep null characters in property names and
 patterns

Names and patterns were cut at the first null character when constraints
were made, looked up in RapidJSON objects and compared during validation,
so that {"required": ["a\u0000"]} was satisfied by a member named "a".
---
 .../valijson/adapters/rapidjson_adapter.hpp   |  8 ++++--
 .../constraints/concrete_constraints.hpp      | 26 +++++++++++--------
 include/valijson/validation_visitor.hpp       | 15 ++++++-----
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 5623dab..4899ad2 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -863,7 +863,7 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         for (typename ValueType::ConstMemberIterator itr = m_value.MemberBegin(); itr != m_value.MemberEnd(); ++itr) {
             const size_t memberNameLength = itr->name.GetStringLength();
             if (memberNameLength == propertyNameLength &&
-                    strncmp(itr->name.GetString(), propertyName.c_str(), itr->name.GetStringLength()) == 0) {
+                    memcmp(itr->name.GetString(), propertyName.data(), itr->name.GetStringLength()) == 0) {
                 return itr;
             }
         }
@@ -871,7 +871,11 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         return m_value.MemberEnd();
     }
 
-    return m_value.FindMember(propertyName.c_str());      // Times are good.
+    // Names can contain null characters, so the length has to be given
+    const ValueType name(propertyName.data(),
+            static_cast<rapidjson::SizeType>(propertyName.length()));
+
+    return m_value.FindMember(name);      // Times are good.
 }
 
 typedef GenericRapidJsonAdapter<> RapidJsonAdapter;
diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ba13343..e2e5b45 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -263,14 +263,14 @@ public:
             const StringType &propertyName,
             const StringType &dependencyName)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
                     key, PropertySet(std::less<String>(), m_allocator))).first;
         }
 
-        itr->second.insert(String(dependencyName.c_str(), m_allocator));
+        itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
 
         return *this;
     }
@@ -280,7 +280,7 @@ public:
             const StringType &propertyName,
             const ContainerType &dependencyNames)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
@@ -289,7 +289,7 @@ public:
 
         typedef typename ContainerType::value_type ValueType;
         for (const ValueType &dependencyName : dependencyNames) {
-            itr->second.insert(String(dependencyName.c_str(), m_allocator));
+            itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
         }
 
         return *this;
@@ -299,7 +299,7 @@ public:
     DependenciesConstraint & addSchemaDependency(const StringType &propertyName, const Subschema *schemaDependency)
     {
         if (m_schemaDependencies.insert(SchemaDependencies::value_type(
-                String(propertyName.c_str(), m_allocator),
+                String(propertyName.data(), propertyName.size(), m_allocator),
                 schemaDependency)).second) {
             return *this;
         }
@@ -913,7 +913,7 @@ public:
     template<typename AllocatorType>
     bool getPattern(std::basic_string<char, std::char_traits<char>, AllocatorType> &result) const
     {
-        result.assign(m_pattern.c_str());
+        result.assign(m_pattern.data(), m_pattern.size());
         return true;
     }
 
@@ -921,13 +921,14 @@ public:
     std::basic_string<char, std::char_traits<char>, AllocatorType> getPattern(
             const AllocatorType &alloc = AllocatorType()) const
     {
-        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.c_str(), alloc);
+        return std::basic_string<char, std::char_traits<char>, AllocatorType>(
+                m_pattern.data(), m_pattern.size(), alloc);
     }
 
     template<typename AllocatorType>
     void setPattern(const std::basic_string<char, std::char_traits<char>, AllocatorType> &pattern)
     {
-        m_pattern.assign(pattern.c_str());
+        m_pattern.assign(pattern.data(), pattern.size());
     }
 
 private:
@@ -997,7 +998,8 @@ public:
             std::char_traits<char>, AllocatorType> &patternProperty,
             const Subschema *subschema)
     {
-        return addPatternPropertySubschema(patternProperty.c_str(), subschema);
+        return m_patternProperties.insert(PropertySchemaMap::value_type(
+                String(patternProperty.data(), patternProperty.size(), m_allocator), subschema)).second;
     }
 
     bool addPropertySubschema(const char *propertyName,
@@ -1012,7 +1014,8 @@ public:
             std::char_traits<char>, AllocatorType> &propertyName,
             const Subschema *subschema)
     {
-        return addPropertySubschema(propertyName.c_str(), subschema);
+        return m_properties.insert(PropertySchemaMap::value_type(
+                String(propertyName.data(), propertyName.size(), m_allocator), subschema)).second;
     }
 
     template<typename FunctorType>
@@ -1107,7 +1110,8 @@ public:
     template<typename AllocatorType>
     bool addRequiredProperty(const std::basic_string<char, std::char_traits<char>, AllocatorType> &propertyName)
     {
-        return addRequiredProperty(propertyName.c_str());
+        return m_requiredProperties.insert(String(propertyName.data(), propertyName.size(),
+                Allocator::rebind<char>::other(m_allocator))).second;
     }
 
     template<typename FunctorType>
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 8c45409..d074d1d 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1503,14 +1503,15 @@ private:
         template<typename StringType>
         bool operator()(const StringType &property) const
         {
-            if (m_object.find(property.c_str()) == m_object.end()) {
+            const std::string propertyKey(property.data(), property.size());
+            if (m_object.find(propertyKey) == m_object.end()) {
                 if (m_validated) {
                     *m_validated = false;
                 }
 
                 if (m_results) {
                     m_results->pushError(m_path, "Missing required property '" +
-                            std::string(property.c_str()) + "'.");
+                            propertyKey + "'.");
                 }
 
                 return m_continueOnFailure;
@@ -1546,14 +1547,14 @@ private:
         template<typename StringType, typename ContainerType>
         bool operator()(const StringType &propertyName, const ContainerType &dependencyNames) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
 
             typedef typename ContainerType::value_type ValueType;
             for (const ValueType &dependencyName : dependencyNames) {
-                const std::string dependencyNameKey(dependencyName.c_str());
+                const std::string dependencyNameKey(dependencyName.data(), dependencyName.size());
                 if (m_object.find(dependencyNameKey) == m_object.end()) {
                     if (m_validated) {
                         *m_validated = false;
@@ -1761,7 +1762,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &patternProperty, const Subschema *subschema) const
         {
-            const std::string patternPropertyStr(patternProperty.c_str());
+            const std::string patternPropertyStr(patternProperty.data(), patternProperty.size());
 
             // It would be nice to store pre-allocated regex objects in the
             // PropertiesConstraint. does internal::regex currently support
@@ -1866,7 +1867,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *subschema) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             const typename AdapterType::Object::const_iterator itr = m_object.find(propertyNameKey);
             if (itr == m_object.end()) {
                 return m_continueIfUnmatched;
@@ -1935,7 +1936,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *schemaDependency) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
-- 
2.43.0


From ad24ae79a69c865aef6a546e7484a0a65073e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 36/38] fix: compare integers exactly when testing values for
 equality

Two integers were compared after conversion to double, so that distinct
integers beyond 2^53 were equal.
---
 include/valijson/internal/basic_adapter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index d5368af..70c16c7 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -512,6 +512,8 @@ public:
             return other.isNull() || (!strict && other.maybeNull());
         } else if (isBool() || (!strict && maybeBool())) {
             return (other.isBool() || (!strict && other.maybeBool())) && other.asBool() == asBool();
+        } else if (isInteger() && other.isInteger()) {
+            return other.getInteger() == getInteger();
         } else if (isNumber() && strict) {
             return other.isNumber() && other.getNumber() == getNumber();
         } else if (!strict && maybeDouble()) {
-- 
2.43.0


From e677ee70640a668e85d9f17909475dc345b0154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 37/38] fix: report malformed JSON instead of throwing in
 loadDocument for nlohmann/json

nlohmann::json::parse throws nlohmann::json::parse_error, which is not a
std::invalid_argument, so malformed files made loadDocument throw.
---
 include/valijson/utils/nlohmann_json_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/nlohmann_json_utils.hpp b/include/valijson/utils/nlohmann_json_utils.hpp
index 77e5771..793827a 100644
--- a/include/valijson/utils/nlohmann_json_utils.hpp
+++ b/include/valijson/utils/nlohmann_json_utils.hpp
@@ -23,7 +23,7 @@ inline bool loadDocument(const std::string &path, nlohmann::json &document)
 #if VALIJSON_USE_EXCEPTIONS
     try {
         document = nlohmann::json::parse(file);
-    } catch (std::invalid_argument const& exception) {
+    } catch (std::exception const& exception) {
         std::cerr << "nlohmann::json failed to parse the document\n"
             << "Parse error:" << exception.what() << "\n";
         return false;
-- 
2.43.0


From 526b7e504c112ddaf6b0f21602d8d6d29dcef917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 38/38] fix: report errors near the start of a file in
 loadDocument for RapidJSON

The offset of the excerpt wrapped around for errors within the first 20
bytes, so that substr threw std::out_of_range out of loadDocument.
---
 include/valijson/utils/rapidjson_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/utils/rapidjson_utils.hpp b/include/valijson/utils/rapidjson_utils.hpp
index 2f90ba9..335801d 100644
--- a/include/valijson/utils/rapidjson_utils.hpp
+++ b/include/valijson/utils/rapidjson_utils.hpp
@@ -28,7 +28,8 @@ inline bool loadDocument(const std::string &path, rapidjson::GenericDocument<Enc
         if (document.HasParseError()) {
             std::cerr << "RapidJson failed to parse the document:" << std::endl;
             std::cerr << "Parse error: " << document.GetParseError() << std::endl;
-            std::cerr << "Near: " << file.substr((std::max)(size_t(0), document.GetErrorOffset() - 20), 40) << std::endl;
+            const size_t errorOffset = document.GetErrorOffset();
+            std::cerr << "Near: " << file.substr(errorOffset > 20 ? errorOffset - 20 : 0, 40) << std::endl;
             return false;
         }
 #if VALIJSON_USE_EXCEPTIONS
-- 
2.43.0

