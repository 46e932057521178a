From 77d578864b4781c4c59f222f6a8ae86959246352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:17 +0000
Subject: [PATCH 01/31] fix: compare the data of both trace points in
 TracePoint::operator==

The operator compared m_data with itself, so points which differ only in
their variables, buffer sizes or auxiliary data compared equal.
---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index f0365d4..0906469 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -428,7 +428,7 @@ public:
     inline bool operator==(const TracePoint & other) const {
         return m_counter == other.m_counter &&
                m_statement == other.m_statement &&
-               m_data == m_data;
+               m_data == other.m_data;
     }
 
     friend std::size_t hash_value(const TracePoint & tracePoint) {
-- 
2.43.0


From 9e104f8a80c702d1f0cf4db9cb7990adffbe8c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:44 +0000
Subject: [PATCH 02/31] fix: evaluate double variables as doubles in query
 predicates

v/value read every floating point variable through the float member of
the value, so predicates over 8-byte variables saw the wrong number.
---
 cffi-interface/trace-db/QueryObjects.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index ef621e6..832143d 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -565,7 +565,9 @@ private:
                 else if (f == POINTER)
                     return PredicateValue(var.getValue().u);
                 else if (f == FLOAT)
-                    return PredicateValue(var.getValue().f);
+                    return var.getSize() == sizeof(float) ?
+                           PredicateValue(var.getValue().f) :
+                           PredicateValue(var.getValue().d);
                 else
                     return PredicateValue();
             }
-- 
2.43.0


From 4a96efa935c49ba795103b110681a3b1c006b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:14 +0000
Subject: [PATCH 03/31] fix: own the predicate and variables in the query cache
 key

EvaluatePredicate objects are kept as keys of a static cache but referred
to the predicate and the local variable vector of the query which created
them; later lookups compared against destroyed objects.
---
 cffi-interface/trace-db/QueryObjects.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 832143d..0c58748 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -505,8 +505,10 @@ public:
 class EvaluatePredicate
 {
 private:
-    const Predicate & m_predicate;
-    const FlyweightTraceVarInfos & m_variables;
+    // Owned copies: objects of this class are the keys of the query cache
+    // and outlive the query they were created for.
+    const Predicate m_predicate;
+    const FlyweightTraceVarInfos m_variables;
     std::size_t m_hash;
 
     std::size_t computeHash() const {
-- 
2.43.0


From 097f8acd162d7ca5c03aecceeb08df842176c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:39 +0000
Subject: [PATCH 04/31] fix: initialize the statement of trace points without a
 statement ID

A point with no STATEMENT_ID entry was left with an indeterminate
statement.
---
 cffi-interface/trace-db/TracePoint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 0906469..c0b9223 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -259,6 +259,7 @@ private:
         Aux aux;
 
         m_counter = counter;
+        m_statement = 0;
 
         while (1) {
             char c = (char) INVALID_TAG;
-- 
2.43.0


From 55b39d094379b3a1fe8706d63690b23232a3205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:05 +0000
Subject: [PATCH 05/31] fix: do not share the auxiliary value buffer between
 readers

The value was read into a static variable, so traces added from several
threads could pick up the auxiliary values of one another.
---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index c0b9223..cb51cab 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -292,7 +292,7 @@ private:
 
             case AUXILIARY:
                 {
-                    static uint64_t value;
+                    uint64_t value = 0;
                     BINARY_READ(is, &value, sizeof(value));
                     aux.push_back(value);
                     break;
-- 
2.43.0


From a74e9d197d1c61cadcd8ba4704e6d824e18ab56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:30 +0000
Subject: [PATCH 06/31] fix: report files which cannot be opened instead of
 aborting

openWithTimeout passed the result of open() to FD_SET unchecked; for a
missing file (-1) or a descriptor past FD_SETSIZE this writes outside the
fd_set.
---
 cffi-interface/trace-db/Utils.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 4bdc924..41ec7f1 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -7,8 +7,10 @@
 #define __UTILS_HPP
 
 #include <fcntl.h>
+#include <sys/select.h>
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <unistd.h>
 
 #include <iostream>
 
@@ -54,6 +56,13 @@ inline boost::iostreams::stream_buffer
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
     int result;
 
+    /* select() can only wait for descriptors in [0, FD_SETSIZE). */
+    if (fd < 0 || fd >= FD_SETSIZE) {
+        if (fd >= 0)
+            close(fd);
+        throw TraceError(std::string(filename) + " could not be opened.");
+    }
+
     /* Now use select() to wait until there is data to read. For a regular
        file, this should return immediately. For a FIFO, it will block until
        some data is written. */
-- 
2.43.0


From 7f3e5655e7e78927bd01a4803d4a22890860d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:55 +0000
Subject: [PATCH 07/31] fix: validate the name index of types when reading a
 trace

The type dictionary was read without checking name indices, so looking up
the type names of such a trace read past the end of the name dictionary.
---
 cffi-interface/trace-db/Trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 0337124..aa931c7 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -77,7 +77,7 @@ private:
         m_types.reserve(n_types);
 
         for (i = 0; i < n_types; i++) {
-            TypeDescription type(is);
+            TypeDescription type(is, m_names);
             m_types.push_back(type);
         }
 
-- 
2.43.0


From 8918a68b76fc87be797a2054bfa40f23a569cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 08/31] fix: do not read past the end of the name dictionary

The names were scanned for terminators without checking that the
dictionary was read completely and ends with one.  The buffer also leaked
when reading failed.
---
 cffi-interface/trace-db/Trace.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index aa931c7..850e55c 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -13,6 +13,7 @@
 #include <iterator>
 #include <ostream>
 #include <map>
+#include <memory>
 #include <random>
 #include <string>
 #include <utility>
@@ -53,23 +54,28 @@ private:
         uint64_t n_chars = 0;
         uint32_t n_types = 0;
         uint64_t i = 0;
-        char *buf = NULL;
 
         /* Read dictionary of names */
         BINARY_READ(is, &n_chars, sizeof(n_chars));
         if (n_chars > 0) {
-            buf = new char[n_chars];
-            BINARY_READ(is, buf, n_chars);
+            std::unique_ptr<char[]> buf(new char[n_chars]);
+            BINARY_READ(is, buf.get(), n_chars);
+
+            if (!is.good()) {
+                throw TraceEOFError();
+            }
+
+            if (buf[n_chars - 1] != 0) {
+                throw TraceError("Unterminated name dictionary.");
+            }
 
             do {
-                m_names.push_back(std::string(buf + i));
+                m_names.push_back(std::string(buf.get() + i));
                 while (buf[i] != 0) {
                     i++;
                 }
                 i++;
             } while (i < n_chars);
-
-            delete[] buf;
         }
 
         /* Read dictionary of types */
-- 
2.43.0


From 921d3c576edb0c0984b5dc122fe45a649ed82437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:48 +0000
Subject: [PATCH 09/31] fix: reject variable sizes which do not fit the value

The size of unsigned, floating point and pointer values comes from the
trace and was used unchecked, so a trace could write past the end of the
8-byte value.  Sizes which the writer cannot represent are rejected too,
as is already done for signed integers.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 959f5c6..d63abef 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -147,13 +147,26 @@ private:
             }
             break;
         case UNSIGNED:
+            {
+                if (m_size != 1 && m_size != 2 && m_size != 4 && m_size != 8) {
+                    throw TraceError("Invalid size for unsigned integer.");
+                }
+                BINARY_READ(is, &m_value.u, m_size);
+            }
+            break;
         case FLOAT:
             {
+                if (m_size != sizeof(float) && m_size != sizeof(double)) {
+                    throw TraceError("Invalid size for floating point.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
             }
             break;
         case POINTER:
             {
+                if (m_size > sizeof(m_value.u)) {
+                    throw TraceError("Invalid size for pointer.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
                 m_buffer_size = map.computeBufferSize(m_value.u);
                 if (m_buffer_size != UINT64_MAX) {
-- 
2.43.0


From b147b0afabdac42151e48c59bd5d4d78101229de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:15 +0000
Subject: [PATCH 10/31] fix: never remove the sentinel of the memory map

Freeing the address UINT64_MAX matched the key of the list head, which is
not on the heap, and deleted it.  Updates of that address added a node
which could never be found.
---
 cffi-interface/trace-db/MemoryMap.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index e4a688a..d92a6c6 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -36,6 +36,10 @@ private:
     }
 
     void skipListRemove(uint64_t key) {
+        // This value is used as a sentinel and can't be used as a key
+        if (key == UINT64_MAX)
+            return;
+
         snode *update[SKIP_LIST_MAX_HEIGHT + 1];
         snode *current = &m_head;
 
@@ -62,6 +66,10 @@ private:
     }
 
     void skipListUpdate(uint64_t key, uint64_t value) {
+        // This value is used as a sentinel and can't be used as a key
+        if (key == UINT64_MAX)
+            return;
+
         snode *existing = skipListFind(key);
         if (existing && existing->key == key) {
             existing->value = value;
-- 
2.43.0


From 9fc3647f151c84752ba4052d59c4269d8b613971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:41 +0000
Subject: [PATCH 11/31] fix: reject traces which end within the type dictionary

A short read of the type count or of the last type was only noticed by a
following read, of which there is none when the file ends there; such a
trace was accepted with wrong types.
---
 cffi-interface/trace-db/Trace.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 850e55c..415bf39 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -87,6 +87,11 @@ private:
             m_types.push_back(type);
         }
 
+        /* The header must be complete */
+        if (!is.good()) {
+            throw TraceEOFError();
+        }
+
         /* Read points */
         for (i = 0; is.good() && (i < max_points || max_points == 0); i++) {
             TracePoint point(is, i, m_names, m_types, m_memory_map);
-- 
2.43.0


From 26fe3e354b089c59289a1ce3444e1f1818ecf379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:09 +0000
Subject: [PATCH 12/31] fix: return one result per point for queries without
 variables

The empty combination of bindings was added in addition to the result
without bindings, so every point was returned twice.
---
 cffi-interface/trace-db/Trace.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 415bf39..82e2974 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -201,7 +201,8 @@ private:
 
         // Collect all combinations of bindings
         for (auto bindings : cartesian(matching_vars)) {
-            if (current.satisfiesPredicate(hard_predicate, bindings)) {
+            if (!variables.empty() &&
+                current.satisfiesPredicate(hard_predicate, bindings)) {
                 FlyweightTraceVarInfos vars;
 
                 vars.reserve(bindings.size());
-- 
2.43.0


From 039d8c1f2dd3795bd09b457559a4348e971bbac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:26 +0000
Subject: [PATCH 13/31] fix: append auxiliary data in add_trace_points

The values were assigned past the end of an empty vector.
---
 cffi-interface/trace-db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index b34b717..e732068 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -97,7 +97,7 @@ int add_trace_points(void /* TraceDB */ *db_ptr,
         Aux aux;
 
         for (uint32_t j = 0; j < c_points[i].n_aux; j++) {
-            aux[j] = c_points[i].aux[j];
+            aux.push_back(c_points[i].aux[j]);
         }
 
         for (uint32_t j = 0; j < c_points[i].n_vars; j++) {
-- 
2.43.0


From b546ac1272250a1cca03fd3838c240993b606c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:01 +0000
Subject: [PATCH 14/31] fix: print <= and >= predicates

Writing a predicate containing one of them to a stream failed an
assertion.
---
 cffi-interface/trace-db/QueryObjects.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 0c58748..d7b138f 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -191,9 +191,15 @@ public:
             case LESS_THAN:
                 name = "<";
                 break;
+            case LESS_THAN_OR_EQUAL:
+                name = "<=";
+                break;
             case GREATER_THAN:
                 name = ">";
                 break;
+            case GREATER_THAN_OR_EQUAL:
+                name = ">=";
+                break;
             case EQUAL:
                 name = "=";
                 break;
-- 
2.43.0


From 3fb62a7bedfdf73abc146045f46372fb83bf2998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:31 +0000
Subject: [PATCH 15/31] fix: use the size of the other blob when ordering blobs

Ordering a blob against a shorter one read past the end of the latter.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index d63abef..0eb1ba6 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -376,7 +376,8 @@ public:
             std::vector<char> data({(char*) m_value.ptr,
                                     (char*) m_value.ptr + m_size});
             std::vector<char> otherData({(char*) other.m_value.ptr,
-                                         (char*) other.m_value.ptr + m_size});
+                                         (char*) other.m_value.ptr +
+                                                other.m_size});
             return std::tie(data,
                             m_name_index,
                             m_type_index,
-- 
2.43.0


From 1044f60186b6cfbbe2a104c93e9286908828ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:00 +0000
Subject: [PATCH 16/31] fix: do not dereference the missing value when copying
 PredicateValue

Invalid values (e.g. the size of a variable without one) have no number to
copy.
---
 cffi-interface/trace-db/QueryObjects.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index d7b138f..aabd297 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -391,7 +391,10 @@ public:
         m_is_valid(other.m_is_valid),
         m_kind(other.m_kind)
     {
-        if (m_kind == CPP_INT) {
+        if (!m_is_valid) {
+            // no value to copy
+        }
+        else if (m_kind == CPP_INT) {
             m_value.cpp_int =
                 new boost::multiprecision::cpp_int(
                     *other.m_value.cpp_int);
-- 
2.43.0


From 8eb858053052c5d460946aea26dc28cf5a3ac14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:32 +0000
Subject: [PATCH 17/31] fix: do not throw exceptions through
 deserialize_trace_db

Text which is not a serialized database raised a C++ exception through the
C interface, which terminates the process, and leaked the database.
---
 cffi-interface/trace-db.cpp | 14 ++++++++++----
 cffi-interface/trace-db.h   |  2 ++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index e732068..ca09f03 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -174,10 +174,16 @@ void /* TraceDB */ * deserialize_trace_db(const char* text)
 {
     TraceDB * db = (TraceDB*) create_db();
 
-    std::stringstream ss;
-    ss << std::string(text);
-    boost::archive::text_iarchive ia(ss);
-    ia >> *db;
+    try {
+        std::stringstream ss;
+        ss << std::string(text);
+        boost::archive::text_iarchive ia(ss);
+        ia >> *db;
+    }
+    catch (std::exception &ex) {
+        free_db(db);
+        return NULL;
+    }
 
     return db;
 }
diff --git a/cffi-interface/trace-db.h b/cffi-interface/trace-db.h
index ae178e4..385edc9 100644
--- a/cffi-interface/trace-db.h
+++ b/cffi-interface/trace-db.h
@@ -54,6 +54,8 @@ char* serialize_trace_db(const void /* TraceDB */ *db_ptr);
 
 /*
    Deserialize a trace DB from a string.
+
+   Returns NULL if the string is not a serialized trace DB.
 */
 void* deserialize_trace_db(const char* text);
 
-- 
2.43.0


From 78b6ff84028226b1e9509233b01ecb9b4d238dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:02 +0000
Subject: [PATCH 18/31] fix: do not share the query cache between threads

The cache is modified without synchronization, so queries of different
databases from different threads could corrupt it.
---
 cffi-interface/trace-db/TracePoint.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index cb51cab..e017c5d 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -69,7 +69,8 @@ private:
     bool
     cachedSatisfiesPredicate(const Predicate & predicate,
                              const FlyweightTraceVarInfos & variables) const {
-        static std::unordered_map<EvaluatePredicate, bool> m_cache;
+        static thread_local
+            std::unordered_map<EvaluatePredicate, bool> m_cache;
         EvaluatePredicate functor(predicate, variables);
 
         if (m_cache.find(functor) == m_cache.end()) {
-- 
2.43.0


From c6a2ae9bfae26c100708166c79916d851d1820bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:37 +0000
Subject: [PATCH 19/31] fix: write pointers with the size of their type

Pointers were always written with the size of a host pointer, while the
reader uses the size in the type dictionary.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 0eb1ba6..7d44835 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -272,8 +272,7 @@ private:
             break;
         case POINTER:
             {
-                void *val = m_value.ptr;
-                BINARY_WRITE(os, &val, sizeof(val));
+                BINARY_WRITE(os, &m_value.u, m_size);
             }
             break;
         case BLOB:
-- 
2.43.0


From 00507267651d1f27e4257d3f8ede614dc39f9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:06 +0000
Subject: [PATCH 20/31] fix: check the allocation of blobs read from a trace

The size of a blob comes from the trace and the allocation may fail.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 7d44835..19a6132 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -186,6 +186,9 @@ private:
                 }
 
                 m_value.ptr = malloc(m_size);
+                if (m_value.ptr == NULL && m_size > 0) {
+                    throw std::bad_alloc();
+                }
                 BINARY_READ(is, m_value.ptr, m_size);
                 break;
             }
-- 
2.43.0


From 5a979268a6967cb4b0e9a15e1df28e863243efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:34 +0000
Subject: [PATCH 21/31] fix: forget cached points when a trace is loaded

Queries of a trace which had been queried before it was deserialized
returned points of its previous contents.
---
 cffi-interface/trace-db/Trace.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 82e2974..b6a8fe8 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -423,6 +423,9 @@ public:
         m_points.shrink_to_fit();
         m_names.shrink_to_fit();
         m_types.shrink_to_fit();
+
+        // Points remembered for earlier queries are out of date
+        m_getpoints_cache.clear();
     }
 
     template<typename Archive>
-- 
2.43.0


From 7376ddb866641687db5104e73f5b46e167d61270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 22/31] fix: write blobs of fixed size types as the reader
 expects them

---
 cffi-interface/trace-db/Trace.hpp        |  2 +-
 cffi-interface/trace-db/TracePoint.hpp   | 17 ++++++++++++++---
 cffi-interface/trace-db/TraceVarInfo.hpp | 15 +++++++++++++--
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index b6a8fe8..973d22a 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -127,7 +127,7 @@ private:
         }
 
         for (auto & point : m_points) {
-            os << point;
+            point.write(os, m_types);
         }
 
         return os;
diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index e017c5d..7b74fe3 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -312,7 +312,8 @@ private:
         return is;
     }
 
-    std::ostream & write(std::ostream & os) const {
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions * types) const {
         os.put(STATEMENT_ID);
         BINARY_WRITE(os, &m_statement, sizeof(m_statement));
 
@@ -323,7 +324,11 @@ private:
 
         for (auto & var : getVars()) {
             os.put(VARIABLE);
-            os << var;
+            if (types) {
+                var.get().write(os, *types);
+            } else {
+                os << var;
+            }
         }
 
         for (auto & aux : getAux()) {
@@ -445,7 +450,13 @@ public:
 
     friend std::ostream & operator<<(std::ostream & os,
                                      const TracePoint & tracePoint) {
-        return tracePoint.write(os);
+        return tracePoint.write(os, NULL);
+    }
+
+    // Write the trace point as expected by readers of TYPES.
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
+        return write(os, &types);
     }
 
     template<typename Archive>
diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 19a6132..79d95c4 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -200,7 +200,8 @@ private:
         return is;
     }
 
-    std::ostream & write(std::ostream & os) const {
+    std::ostream & write(std::ostream & os,
+                         bool has_fixed_size = false) const {
         BINARY_WRITE(os, &m_name_index, sizeof(m_name_index));
         BINARY_WRITE(os, &m_type_index, sizeof(m_type_index));
 
@@ -281,7 +282,10 @@ private:
         case BLOB:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &m_size, sizeof(m_size));
+                if (!has_fixed_size) {
+                    /* Variable-sized type: write size to trace */
+                    BINARY_WRITE(os, &m_size, sizeof(m_size));
+                }
                 BINARY_WRITE(os, val, m_size);
             }
             break;
@@ -487,6 +491,13 @@ public:
         return traceVarInfo.write(os);
     }
 
+    // Write the variable as expected by readers of TYPES.
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
+        return write(os, m_type_index < types.size() &&
+                         types[m_type_index].getSize() != 0);
+    }
+
     template<typename Archive>
     void save(Archive & ar,
               const unsigned int version) const {
-- 
2.43.0


From d7bb2b3339c075da311f2592205e53bde6baaa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:08 +0000
Subject: [PATCH 23/31] fix: define signed values whose bytes are missing from
 the trace

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 79d95c4..ed78fee 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -115,28 +115,28 @@ private:
                 switch (m_size) {
                 case 1:
                     {
-                        int8_t tmp;
+                        int8_t tmp = 0;
                         BINARY_READ(is, &tmp, m_size);
                         m_value.s = tmp;
                     }
                     break;
                 case 2:
                     {
-                        int16_t tmp;
+                        int16_t tmp = 0;
                         BINARY_READ(is, &tmp, m_size);
                         m_value.s = tmp;
                     }
                     break;
                 case 4:
                     {
-                        int32_t tmp;
+                        int32_t tmp = 0;
                         BINARY_READ(is, &tmp, m_size);
                         m_value.s = tmp;
                     }
                     break;
                 case 8:
                     {
-                        int64_t tmp;
+                        int64_t tmp = 0;
                         BINARY_READ(is, &tmp, m_size);
                         m_value.s = tmp;
                     }
-- 
2.43.0


From c19c609d2bbb5cea38b6567e64641fa32a27f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:48 +0000
Subject: [PATCH 24/31] fix: deserialize_trace_db reports failure to allocate
 the database

---
 cffi-interface/trace-db.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index ca09f03..09ce279 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -172,9 +172,11 @@ char* serialize_trace_db(const void /* TraceDB */ *db_ptr)
 
 void /* TraceDB */ * deserialize_trace_db(const char* text)
 {
-    TraceDB * db = (TraceDB*) create_db();
+    TraceDB * db = NULL;
 
     try {
+        db = (TraceDB*) create_db();
+
         std::stringstream ss;
         ss << std::string(text);
         boost::archive::text_iarchive ia(ss);
-- 
2.43.0


From 71827ebb61818d646dd85fbda5a228ad171a8e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:02 +0000
Subject: [PATCH 25/31] fix: reject type formats above INT_MAX

---
 cffi-interface/trace-db/TypeDescription.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TypeDescription.hpp b/cffi-interface/trace-db/TypeDescription.hpp
index c08b52b..16de8e3 100644
--- a/cffi-interface/trace-db/TypeDescription.hpp
+++ b/cffi-interface/trace-db/TypeDescription.hpp
@@ -55,7 +55,7 @@ private:
         BINARY_READ(is, &m_format, sizeof(m_format));
         BINARY_READ(is, &m_size, sizeof(m_size));
 
-        if (m_format >= INVALID_FORMAT) {
+        if ((uint32_t) m_format >= INVALID_FORMAT) {
             throw TraceError("Invalid type format.");
         }
 
-- 
2.43.0


From 83b1b16c6565d480ce4279724f86247503a34818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:38 +0000
Subject: [PATCH 26/31] fix: do not leak the descriptor if allocating the
 source fails

---
 cffi-interface/trace-db/Utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 41ec7f1..331dddb 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -51,6 +51,9 @@ inline boost::iostreams::stream_buffer
                        uint64_t timeout_seconds) {
     namespace ios = boost::iostreams;
 
+    /* Constructed before the file is opened: this allocates and may throw. */
+    ios::file_descriptor_source fds;
+
     /* Open in non-blocking mode. Returns immediately even if file is a FIFO
        with no writer yet. */
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
@@ -86,7 +89,7 @@ inline boost::iostreams::stream_buffer
         int flags = fcntl(fd, F_GETFL, 0);
         fcntl(fd, F_SETFL, flags & ~O_NONBLOCK);
 
-        ios::file_descriptor_source fds(fd, ios::close_handle);
+        fds.open(fd, ios::close_handle);
         return new ios::stream_buffer<ios::file_descriptor_source>(fds);
     }
     else {
-- 
2.43.0


From 22b016ca4b56b9c5e45920bcce4e0826a99c9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:30 +0000
Subject: [PATCH 27/31] fix: loading a trace point's data replaces its previous
 contents

---
 cffi-interface/trace-db/TracePoint.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 7b74fe3..3358b95 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -162,6 +162,11 @@ public:
         ar & n_vars;
         ar & n_aux;
 
+        // Loading replaces the previous contents
+        m_sizes.clear();
+        m_vars.clear();
+        m_aux.clear();
+
         m_sizes.reserve(n_sizes);
         m_vars.reserve(n_vars);
         m_aux.reserve(n_aux);
-- 
2.43.0


From dda0083ba814a57b0b813cf26e5b1b966fece0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:44 +0000
Subject: [PATCH 28/31] fix: check the allocation of a deserialized blob

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index ed78fee..62c1cad 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -529,6 +529,8 @@ public:
 
         if (m_format == BLOB) {
             m_value.ptr = malloc(m_size);
+            if (m_value.ptr == NULL && m_size > 0)
+                throw std::bad_alloc();
             for (uint32_t i = 0; i < m_size; i++)
                 ar & ((char*) m_value.ptr)[i];
         }
-- 
2.43.0


From 62e1f8f5e7aa3936ab1acf64d92785fd43ed5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:52 +0000
Subject: [PATCH 29/31] fix: remember a list of filtered points only when it is
 complete

---
 cffi-interface/trace-db/Trace.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 973d22a..950800d 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -299,12 +299,13 @@ public:
             std::make_pair(mask, statement);
 
         if (m_getpoints_cache.find(key) == m_getpoints_cache.end()) {
-            m_getpoints_cache[key] = TracePoints();
+            TracePoints points;
             for (auto & point : m_points) {
                 if ((point.getStatement() & mask) == statement) {
-                    m_getpoints_cache[key].push_back(point);
+                    points.push_back(point);
                 }
             }
+            m_getpoints_cache.insert(std::make_pair(key, points));
         }
 
         return m_getpoints_cache[key];
-- 
2.43.0


From 748025ed6c5f5ed49fd7f359b2651f16b090fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 30/31] fix: guard the cache of filtered points so that a trace
 can be queried from several threads

---
 cffi-interface/trace-db/Trace.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 950800d..51f743b 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -14,6 +14,7 @@
 #include <ostream>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <random>
 #include <string>
 #include <utility>
@@ -44,6 +45,7 @@ private:
 
     mutable MemoryMap m_memory_map;
     mutable std::map<MaskKey, TracePoints> m_getpoints_cache;
+    mutable std::mutex m_getpoints_mutex;
 
     std::istream & read(std::istream & is) {
         return read(is, 0);
@@ -298,6 +300,9 @@ public:
         const std::pair<uint64_t, uint64_t> key =
             std::make_pair(mask, statement);
 
+        // the same trace may be queried from several threads
+        std::lock_guard<std::mutex> lock(m_getpoints_mutex);
+
         if (m_getpoints_cache.find(key) == m_getpoints_cache.end()) {
             TracePoints points;
             for (auto & point : m_points) {
-- 
2.43.0


From 4d74f97d14ee243fe55e10735317ef75af4a622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 31/31] fix: declare the timeout of add_trace as the unsigned
 type the C function takes

Timeouts of 2^31 seconds and more, which the Lisp method accepts and
read_trace takes, could not be passed to add_trace.
---
 binary-trace-db.lisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-trace-db.lisp b/binary-trace-db.lisp
index 9dc5e27..b6ebe6e 100644
--- a/binary-trace-db.lisp
+++ b/binary-trace-db.lisp
@@ -219,7 +219,7 @@ the results."
 (defcfun ("add_trace" c-add-trace) :int
   (db :pointer)
   (filename :string)
-  (timeout :int)
+  (timeout :uint32)
   (max-trace-points :uint64))
 (defcfun ("add_trace_points" c-add-trace-points) :int
   (db :pointer)
-- 
2.43.0

