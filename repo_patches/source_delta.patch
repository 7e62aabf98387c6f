From 556c88ee31f55d6b08af6e5bc7bfd284285f74ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 01/39] fix: IntType Asc/Desc overflow for operands of opposite
 sign

---
 .../main/java/com/bytefacets/collections/types/IntType.java   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/IntType.java b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
index 5e155d6..a222539 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/IntType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
@@ -21,8 +21,8 @@ public final class IntType {
         int compare(int a, int b);
     }
 
-    public static final Cmp Asc = (a, b) -> a - b;
-    public static final Cmp Desc = (a, b) -> b - a;
+    public static final Cmp Asc = Integer::compare;
+    public static final Cmp Desc = (a, b) -> Integer.compare(b, a);
     public static final Cmp AbsAsc = (a, b) -> Math.abs(a) - Math.abs(b);
     public static final Cmp AbsDesc = (a, b) -> Math.abs(b) - Math.abs(a);
 
-- 
2.43.0


From 98ee00030ed1b6b7d69a4ca491e7dce9dae1311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 02/39] fix: Int and Long absolute comparators misplace
 MIN_VALUE

---
 .../main/java/com/bytefacets/collections/types/IntType.java | 6 ++++--
 .../java/com/bytefacets/collections/types/LongType.java     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/IntType.java b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
index a222539..a279782 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/IntType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
@@ -23,8 +23,10 @@ public final class IntType {
 
     public static final Cmp Asc = Integer::compare;
     public static final Cmp Desc = (a, b) -> Integer.compare(b, a);
-    public static final Cmp AbsAsc = (a, b) -> Math.abs(a) - Math.abs(b);
-    public static final Cmp AbsDesc = (a, b) -> Math.abs(b) - Math.abs(a);
+    public static final Cmp AbsAsc =
+            (a, b) -> Integer.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc =
+            (a, b) -> Integer.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
diff --git a/collections/src/main/java/com/bytefacets/collections/types/LongType.java b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
index 8bb56e7..34d50cd 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/LongType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
@@ -19,8 +19,10 @@ public final class LongType {
 
     public static final Cmp Asc = Long::compare;
     public static final Cmp Desc = (a, b) -> Long.compare(b, a);
-    public static final Cmp AbsAsc = (a, b) -> Long.compare(Math.abs(a), Math.abs(b));
-    public static final Cmp AbsDesc = (a, b) -> Long.compare(Math.abs(b), Math.abs(a));
+    public static final Cmp AbsAsc =
+            (a, b) -> Long.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc =
+            (a, b) -> Long.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
-- 
2.43.0


From bb2a0afa39e88cbec40ef5a1d9922e628782aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 03/39] fix: DoubleType comparators are not transitive with NaN

---
 .../java/com/bytefacets/collections/types/DoubleType.java     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
index bfa5c45..8be0e2c 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
@@ -18,8 +18,8 @@ public final class DoubleType {
         int compare(double a, double b);
     }
 
-    public static final Cmp Asc = (a, b) -> (int) Math.signum(a - b);
-    public static final Cmp Desc = (a, b) -> (int) Math.signum(b - a);
+    public static final Cmp Asc = Double::compare;
+    public static final Cmp Desc = (a, b) -> Double.compare(b, a);
     public static final Cmp AbsAsc = (a, b) -> Asc.compare(Math.abs(a), Math.abs(b));
     public static final Cmp AbsDesc = (a, b) -> Desc.compare(Math.abs(a), Math.abs(b));
 
-- 
2.43.0


From b5b72842a8a069198fba193c938055f90848c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 04/39] fix: Double and Float equality does not equate NaN, so
 NaN keys are never found

---
 .../main/java/com/bytefacets/collections/types/DoubleType.java  | 2 +-
 .../main/java/com/bytefacets/collections/types/FloatType.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
index 8be0e2c..2295cdd 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
@@ -11,7 +11,7 @@ public final class DoubleType {
         boolean areEqual(double a, double b);
     }
 
-    public static final Eq EqImpl = (a, b) -> a == b;
+    public static final Eq EqImpl = (a, b) -> a == b || (a != a && b != b);
     public static final Eq EqEpsilon = (a, b) -> Math.abs(a - b) < 1e-10;
 
     public interface Cmp {
diff --git a/collections/src/main/java/com/bytefacets/collections/types/FloatType.java b/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
index 7b28a26..7d4bb99 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
@@ -11,7 +11,7 @@ public final class FloatType {
         boolean areEqual(float a, float b);
     }
 
-    public static final Eq EqImpl = (a, b) -> a == b;
+    public static final Eq EqImpl = (a, b) -> a == b || (a != a && b != b);
 
     public interface Cmp {
         int compare(float a, float b);
-- 
2.43.0


From 729c48eece0a1b3f4bc44baca158c6d3b803b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 05/39] fix: Double and Float hash codes differ for the equal
 keys 0.0 and -0.0

---
 .../main/java/com/bytefacets/collections/types/DoubleType.java  | 2 +-
 .../main/java/com/bytefacets/collections/types/FloatType.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
index 2295cdd..eceeadc 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
@@ -60,7 +60,7 @@ public final class DoubleType {
         int code(double v);
     }
 
-    public static final Hash HashImpl = Double::hashCode;
+    public static final Hash HashImpl = (v) -> Double.hashCode(v == 0 ? 0 : v);
 
     public static int castToInt(final double value) {
         return (int) value;
diff --git a/collections/src/main/java/com/bytefacets/collections/types/FloatType.java b/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
index 7d4bb99..096d552 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
@@ -59,7 +59,7 @@ public final class FloatType {
         int code(float v);
     }
 
-    public static final Hash HashImpl = Float::hashCode;
+    public static final Hash HashImpl = (v) -> Float.hashCode(v == 0 ? 0 : v);
 
     public static int castToInt(final float value) {
         return (int) value;
-- 
2.43.0


From 1a2d038a0d91f53fb4e08cda3d0482b6cd5a9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 06/39] fix: String and Generic comparators throw when the
 second operand is null

---
 .../java/com/bytefacets/collections/types/GenericType.java     | 3 +++
 .../main/java/com/bytefacets/collections/types/StringType.java | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
index d711da1..58cba2e 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
@@ -34,6 +34,9 @@ public final class GenericType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         final Comparable aCmp = (Comparable) a;
         return aCmp.compareTo(b);
     }
diff --git a/collections/src/main/java/com/bytefacets/collections/types/StringType.java b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
index 618619a..23740db 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/StringType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
@@ -40,6 +40,9 @@ public final class StringType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         return method.compare(a, b);
     }
 
-- 
2.43.0


From a59452582842a6f2332ba3914259b333917e2489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 07/39] fix: CharType.convert refuses a Character

---
 .../main/java/com/bytefacets/collections/types/CharType.java   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/CharType.java b/collections/src/main/java/com/bytefacets/collections/types/CharType.java
index 32f8ba7..f4c3fa3 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/CharType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/CharType.java
@@ -88,6 +88,9 @@ public final class CharType {
             return DEFAULT;
         }
         final Class<?> type = value.getClass();
+        if (Character.class.isAssignableFrom(type)) {
+            return (Character) value;
+        }
         if (Number.class.isAssignableFrom(type)) {
             return (char) ((Number) value).intValue();
         }
-- 
2.43.0


From 37031458e8417ec058823fd28383f8410fbe85ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 08/39] fix: clear resets the modification count, hiding
 modifications from iterators

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 3fb6e77..2021a2c 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -85,7 +85,7 @@ abstract class BaseHash {
             clearValues();
             size = 0;
         }
-        modificationCount = 0;
+        modificationCount++;
         nextUnusedEntry = 0;
         freeList = -1;
         maxHead = 0;
-- 
2.43.0


From 2171ea87416958543198300ecb52b8d476b90501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 09/39] fix: clear leaves reserved keys and values in place
 when nothing is active

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 2021a2c..e510897 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -72,7 +72,7 @@ abstract class BaseHash {
     }
 
     public void clear() {
-        if (size > 0) {
+        if (nextUnusedEntry > 0) {
             int lim;
 
             lim = Math.min(heads.length, maxHead + 1);
-- 
2.43.0


From 29cc2e755b6e2cf4736770faad0eed6710823ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 10/39] fix: rehash drops the free list when growth happens
 with released entries

---
 .../templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 55a4517..0155569 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -257,7 +257,7 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
         calculateNewCapacity();
 
         heads = IntArray.create(capacity, -1);
-        nexts = IntArray.create(capacity, -1);
+        nexts = IntArray.copyOf(nexts, capacity, -1); // keep the links of the free list
 
         // rebuild
         growKeys(capacity);
-- 
2.43.0


From 8b34511a631f5ad7546fe54a0949fec3eaacbfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 11/39] fix: copyFrom does not take over the hash and equality
 methods of its source

---
 .../templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 0155569..d987a53 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -26,6 +26,8 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
 
     protected void copyFrom(final Base${type.name}Index${generics} source) {
         super.copyFrom(source);
+        hashFunc = source.hashFunc;
+        equalFunc = source.equalFunc;
         
         // keys array should be big enough
         if(keys.length < source.keys.length ) {
-- 
2.43.0


From 4e551442ef43308dd82b711702a978601e5bdd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 12/39] fix: iterator removal keeps the removed key in the
 collection

---
 .../java/com/bytefacets/collections/hash/BaseHash.java     | 7 +++----
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl       | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index e510897..f922e9c 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -114,6 +114,8 @@ abstract class BaseHash {
         }
     }
 
+    protected abstract void freeReservedEntry(int entry);
+
     protected abstract void removeValue(int entry);
 
     protected abstract void growValues(int size);
@@ -254,11 +256,8 @@ abstract class BaseHash {
             }
 
             // released entry becomes head of free list
-            nexts[entry] = freeList;
-            freeList = entry;
+            freeReservedEntry(entry);
             size--;
-
-            removeValue(entry);
             isRemoved = true;
 
             internalModCount++;
diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index d987a53..970f5aa 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -141,6 +141,7 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
      * whether or not you first reserved the entry. Calling this with active entries can corrupt
      * the collection.
      */
+    @Override
     public void freeReservedEntry(final int entry) {
         nexts[entry] = freeList;
         freeList = entry;
-- 
2.43.0


From 471518b10e08ee956303bfab4d00e2a6d926cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 13/39] fix: removeAtAndReserve of an unused entry removes a
 different key

---
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 970f5aa..8388759 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -132,7 +132,10 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
      * the set will never use the entry again, and result in a memory leek.
      */
     public void removeAtAndReserve(final int entry) {
-        remove(${type.cast}keys[entry], false);
+        final ${type.javaType} key = ${type.cast}keys[entry];
+        if(lookupEntry(key) == entry) { // otherwise the entry is not in use
+            remove(key, false);
+        }
     }
 
     /**
-- 
2.43.0


From afe4a689b76246b60844e8005ad0737c063e33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 14/39] fix: relation entries beyond the initial capacity have
 no links when first of their key

---
 .../src/main/java/com/bytefacets/collections/bi/Side.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index 3f542f0..b7d09f7 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -36,8 +36,8 @@ public final class Side {
     void insertEntry(final int key, final int entry) {
         ensureKey(key);
         final int oldHead = heads[key];
+        ensureEntry(entry);
         if (oldHead != UNSET) {
-            ensureEntry(entry);
             nexts[entry] = oldHead; // prepend
             prevs[oldHead] = entry;
         }
-- 
2.43.0


From cdf6740b0acf77a0cd95aeea841f3eb1ba19f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 15/39] fix: iterating the values of an unknown key throws

---
 .../src/main/java/com/bytefacets/collections/bi/Side.java   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index b7d09f7..ecbddb7 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -131,7 +131,11 @@ public final class Side {
         }
 
         public void reset() {
-            this.entry = heads[key];
+            if (key >= 0 && key < heads.length) {
+                this.entry = heads[key];
+            } else {
+                this.entry = UNSET;
+            }
         }
 
         @Override
-- 
2.43.0


From 109a07ec95bd5793b79ad8b37a7c21b278141814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 16/39] fix: removing an unused relation entry corrupts the
 counts of key 0

---
 .../com/bytefacets/collections/bi/CompactOneToMany.java     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
index 4988ef5..0540d27 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
@@ -79,6 +79,9 @@ public class CompactOneToMany {
      */
     public int removeAt(final int entry) {
         final long key = mappings.getKeyAt(entry);
+        if (mappings.lookupEntry(key) != entry) { // not in use
+            return -1;
+        }
         removeLeft(Pack.unpackHiInt(key), entry);
         removeRight(Pack.unpackLoInt(key), entry);
         mappings.removeAt(entry);
@@ -139,6 +142,9 @@ public class CompactOneToMany {
      */
     public void removeAtAndReserve(final int entry) {
         final long key = mappings.getKeyAt(entry);
+        if (mappings.lookupEntry(key) != entry) { // not in use
+            return;
+        }
         mappings.removeAtAndReserve(entry);
         removeLeft(Pack.unpackHiInt(key), entry);
         removeRight(Pack.unpackLoInt(key), entry);
-- 
2.43.0


From 3503e95d572c539f93026f82768bcbf8d9bf78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 17/39] fix: heap treats entries that were never used as valid

---
 .../main/java/com/bytefacets/collections/heap/BaseHeap.java | 6 +++++-
 .../com/bytefacets/collections/heap/BaseKeyHeap.ftl         | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index da46966..77e5e23 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -48,7 +48,11 @@ abstract class BaseHeap {
     }
 
     public boolean isValidEntry(final int entry) {
-        return (entry < inverse.length && inverse[entry] >= 0 && inverse[entry] < size);
+        if (entry < 0 || entry >= inverse.length) {
+            return false;
+        }
+        final int node = inverse[entry];
+        return node >= 0 && node < size && tree[node] == entry;
     }
 
     protected void growHeap(final int capacity) {
diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index de2fcf6..9cff2e9 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -105,7 +105,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
         final int node = inverse[entry];
 
         // the node is unknown or somehow outside the limits of the heap
-        if(node == -1 || node >= size) {
+        if(!isValidEntry(entry)) {
             throw new InvalidEntryException(
                 String.format("Tried to remove entry that does not exist: entry=%d, node=%d, size=%d",
                               size, entry, node, size));
-- 
2.43.0


From 040c0e3abf350a1af7f4a8bfe8ad4ced16cce563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 18/39] fix: heap forEachEntry misses entries above the current
 size

---
 .../src/main/java/com/bytefacets/collections/heap/BaseHeap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index 77e5e23..4284df3 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -40,7 +40,7 @@ abstract class BaseHeap {
     }
 
     public void forEachEntry(final IntConsumer entryConsumer) {
-        for (int entry = 0; entry < size; entry++) {
+        for (int entry = 0; entry < inverse.length; entry++) {
             if (isValidEntry(entry)) {
                 entryConsumer.accept(entry);
             }
-- 
2.43.0


From 42426bcc753c695dc79287b02859295112a558e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 19/39] fix: heap clear keeps keys and values of entries above
 the current size

---
 .../templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl   | 2 +-
 .../templates/com/bytefacets/collections/heap/KeyValueHeap.ftl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 9cff2e9..77ad99d 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -74,7 +74,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
     public void clear() {
         IntArray.fill(tree, IntType.DEFAULT);
         IntArray.fill(inverse, IntType.DEFAULT);
-        ${type.name}Array.fill(keys, defaultKey, 0, size);
+        ${type.name}Array.fill(keys, defaultKey, 0, size + freeCount);
         clearValues();
         freeCount = 0;
         size = 0;
diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
index 35be3a9..e2b463e 100755
--- a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
@@ -91,6 +91,6 @@ public class ${key.name}${value.name}Heap${generics} extends Base${key.name}Heap
 
     @Override
     protected void clearValues() {
-        ${value.name}Array.fill(values, defaultValue, 0, size);
+        ${value.name}Array.fill(values, defaultValue, 0, size + freeCount);
     }
 }
-- 
2.43.0


From ad9dbb903d8d7c3d8068943bc44dfe30539ac4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 20/39] fix: setDefaultValue does not throw the documented
 exception

---
 .../templates/com/bytefacets/collections/heap/KeyValueHeap.ftl  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
index e2b463e..8dc8d7e 100755
--- a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
@@ -37,7 +37,7 @@ public class ${key.name}${value.name}Heap${generics} extends Base${key.name}Heap
      */
     public void setDefaultValue(final ${value.javaType} defaultValue) {
         if(size > 0) {
-            throw new RuntimeException("SetDefaultValue("+defaultValue+"): collection is not empty ("+getSize()+")" );
+            throw new UnsupportedOperationException("SetDefaultValue("+defaultValue+"): collection is not empty ("+getSize()+")" );
         }
         if(!${value.name}Type.EqImpl.areEqual(this.defaultValue, defaultValue)) {
             this.defaultValue = defaultValue;
-- 
2.43.0


From daa46ccc896f389dbe5e43cd77ea8f90b937d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 21/39] fix: hydra deque clear never gives storage back

---
 .../templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
index cedf239..d058b9d 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
@@ -191,6 +191,7 @@ public final class ${type.name}HydraDeque${generics} {
         IntArray.fill(count, 0);
         ${type.name}Array.fill(values, ${type.name}Type.DEFAULT);
         freeList = -1;
+        maxEntry = -1;
         size = 0;
     }
 
-- 
2.43.0


From 6ac8dfb176d3126c3ee2c79f547735c722d20526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 22/39] fix: chunk store cells collide when the chunk size is
 not a power of two

---
 .../com/bytefacets/collections/store/KeyChunkStore.ftl          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
index dc18933..1f585f7 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
@@ -24,7 +24,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
 
     public ${type.name}ChunkStore(final int initialSize, final int chunkSize) {
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         final int requiredChunks = (int) Math.ceil((double)initialSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-- 
2.43.0


From 32e6547b829165aadc948ee90f62c319b52783a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 23/39] fix: chunk matrix store cells collide when the chunk
 size is not a power of two

---
 .../com/bytefacets/collections/store/KeyChunkMatrixStore.ftl    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 2c10cc9..54a8dfd 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -36,7 +36,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     public ${type.name}ChunkMatrixStore(final int initialSize, final int chunkSize, final int numFields) {
         assertValidConfig(initialSize, chunkSize, numFields);
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         this.numFields = numFields;
         final int rawSize = initialSize * numFields;
-- 
2.43.0


From b1fd9315254b5a353e58cfa836872dac2bb903b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 24/39] fix: chunk matrix store silently wraps around for rows
 that are too large

---
 .../com/bytefacets/collections/store/KeyChunkMatrixStore.ftl  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 54a8dfd..c32484f 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -39,7 +39,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         this.numFields = numFields;
-        final int rawSize = initialSize * numFields;
+        final int rawSize = Math.multiplyExact(initialSize, numFields);
         final int requiredChunks = (int) Math.ceil((double)rawSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
         this.capacity = (chunks.length * this.chunkSize) / numFields;
@@ -101,7 +101,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     }
 
     private void grow(final int row) {
-        final int rawSize = row * numFields;
+        final int rawSize = Math.multiplyExact(row, numFields);
         final int requiredChunks = (int) Math.ceil((double)rawSize / (double)chunkSize);
         final int oldLen = chunks.length;
         this.chunks = Arrays.copyOf(chunks, requiredChunks);
-- 
2.43.0


From 600b1c4a1444d951ef63faedda7e3974c9b628d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 25/39] fix: Snowflake repeats ids when the clock steps back
 while waiting for the next millisecond

---
 .../src/main/java/com/bytefacets/collections/id/Snowflake.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
index 1cf6cc7..f5fe850 100644
--- a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
+++ b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
@@ -94,7 +94,7 @@ public final class Snowflake {
     // Block and wait till next millisecond
     private long waitNextMillis(final long currentTimestamp) {
         long nextTimestamp = currentTimestamp;
-        while (nextTimestamp == lastTimestamp) {
+        while (nextTimestamp <= lastTimestamp) {
             nextTimestamp = timestamp();
         }
         return nextTimestamp;
-- 
2.43.0


From 56468e7a89250b0827f408b090f9f36d588f89a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 26/39] fix: Snowflake returns a negative id in the millisecond
 before its epoch

---
 .../src/main/java/com/bytefacets/collections/id/Snowflake.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
index f5fe850..e6e262a 100644
--- a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
+++ b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
@@ -61,7 +61,7 @@ public final class Snowflake {
     public synchronized long nextId() {
         long currentTimestamp = timestamp();
 
-        if (currentTimestamp < lastTimestamp) {
+        if (currentTimestamp < lastTimestamp || currentTimestamp < 0) {
             throw new IllegalStateException("Invalid System Clock!");
         }
 
-- 
2.43.0


From 0c9b6fea54d07e0d05e59a6eeff8c61bcda0a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 27/39] fix: array growth never terminates for sizes above 2^30

---
 .../templates/com/bytefacets/collections/arrays/KeyArray.ftl   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
index 66c14fc..f6d5c0a 100644
--- a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
@@ -143,6 +143,9 @@ public final class ${type.name}Array {
         }
         while(newLength < necessarySize) {
             newLength <<= 1;
+            if(newLength <= 0) { // overflow: cannot double any further
+                return necessarySize;
+            }
         }
         return newLength;
     }
-- 
2.43.0


From ef04836d05437a169f267eda6a0c814d76b9d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 28/39] fix: companion sort accepts ranges whose end overflows

---
 .../com/bytefacets/collections/sort/KeyValueCompanionSort.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
index db0f7bc..1bd4bcc 100644
--- a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
@@ -17,10 +17,10 @@ public final class ${key.name}${value.name}CompanionSort {
      */
     public static void sort(${key.arrayType}[] pri, ${value.arrayType}[] sec, int off, int len, ${key.name}Type.Cmp cmp) {
         // Insertion sort on smallest arrays
-        if( off + len > pri.length )
+        if( (long) off + len > pri.length )
             throw new IllegalArgumentException(
                 "offset+len > primary.length: offset="+off+" len="+len+" array.length="+pri.length);
-        if( off + len > sec.length )
+        if( (long) off + len > sec.length )
             throw new IllegalArgumentException(
                 "offset+len > secondary.length: offset="+off+" len="+len+" array.length="+sec.length);
         if( off < 0 || len < 0 )
-- 
2.43.0


From 95f28d0b2bed76e1db4d71d6c697c166384200bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 29/39] fix: matrix store lets very negative rows reach the
 cells of other rows

---
 .../bytefacets/collections/store/KeyChunkMatrixStore.ftl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index c32484f..79858d2 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -64,6 +64,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     @Override
     public ${type.javaType} get${type.name}(final int row, final int field) {
         RangeCheckException.assertWithinRange(0, numFields - 1, field, "field");
+        assertNotNegative(row);
         if(row >= capacity) {
             return ${type.cast}${type.name}Type.DEFAULT;
         }
@@ -76,11 +77,13 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     /**
      * Sets the value at the given row and field, growing the store if necessary.
      *
+     * @throws IndexOutOfBoundsException if the row is negative
      * @throws com.bytefacets.collections.exception.RangeCheckException if the field is not within [0, numFields)
      */
     @Override
     public void set${type.name}(final int row, final int field, final ${type.javaType} value) {
         RangeCheckException.assertWithinRange(0, numFields - 1, field, "field");
+        assertNotNegative(row);
         if(row >= capacity) {
             grow(row+1);
         }
@@ -90,6 +93,12 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         chunks[chunk][offset] = value;
     }
 
+    private static void assertNotNegative(final int row) {
+        if(row < 0) { // row * numFields may overflow to the position of another cell
+            throw new IndexOutOfBoundsException("Negative row: " + row);
+        }
+    }
+
     /** The current full row capacity of the store. */
     public int getCapacity() {
         return capacity;
-- 
2.43.0


From bb2d48ecc69f253505ac9b176e31d51f5cb74a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 30/39] fix: counting the values of a negative key throws

Iterating the values of such a key delivers nothing, like for any other
key without associations; count() failed with ArrayIndexOutOfBounds.
---
 .../src/main/java/com/bytefacets/collections/bi/Side.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index ecbddb7..07cb986 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -30,7 +30,7 @@ public final class Side {
         if (count == null) {
             throw new IllegalStateException("Counts are not tracked in this collection");
         }
-        return key < count.length ? count[key] : 0;
+        return key >= 0 && key < count.length ? count[key] : 0;
     }
 
     void insertEntry(final int key, final int entry) {
-- 
2.43.0


From 1c2a81bf7ea31bd43f835a70fc6eaff01e7989af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 31/39] fix: a refused negative key leaves half of an
 association behind

put registered the pair before it failed on the negative array offset, so
contains() and size() reported the refused pair.
---
 .../com/bytefacets/collections/bi/CompactManyToMany.java | 8 ++++++++
 .../com/bytefacets/collections/bi/CompactOneToMany.java  | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java
index ac24ad9..ae923c8 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java
@@ -27,6 +27,14 @@ public final class CompactManyToMany extends CompactOneToMany {
         rightMapping = new Mapping(right, this::getLeftAt);
     }
 
+    @Override
+    protected void verifyKeys(final int leftKey, final int rightKey) {
+        super.verifyKeys(leftKey, rightKey);
+        if (rightKey < 0) {
+            throw new IndexOutOfBoundsException("Negative right key: " + rightKey);
+        }
+    }
+
     @Override
     protected void insertRight(final int rightKey, final int entry) {
         right.insertEntry(rightKey, entry);
diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
index 0540d27..7b9864a 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
@@ -40,8 +40,11 @@ public class CompactOneToMany {
     /**
      * Registers an association between leftKey and rightKey, returning the stable entry of the
      * association. If the association is already present, the existing entry is returned.
+     *
+     * @throws IndexOutOfBoundsException if a key which is used as an array offset is negative
      */
     public int put(final int leftKey, final int rightKey) {
+        verifyKeys(leftKey, rightKey);
         final long key = Pack.packToLong(leftKey, rightKey);
         final int before = mappings.size();
         final int entry = mappings.add(key);
@@ -161,6 +164,12 @@ public class CompactOneToMany {
         mappings.freeReservedEntry(entry);
     }
 
+    protected void verifyKeys(final int leftKey, final int rightKey) {
+        if (leftKey < 0) {
+            throw new IndexOutOfBoundsException("Negative left key: " + leftKey);
+        }
+    }
+
     protected void insertLeft(final int leftKey, final int entry) {
         left.insertEntry(leftKey, entry);
     }
-- 
2.43.0


From c520b45f835200e9906730790f87b6443affa9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 32/39] fix: Snowflake repeats ids after the clock fails while
 waiting

---
 .../main/java/com/bytefacets/collections/id/Snowflake.java   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
index e6e262a..c15dd96 100644
--- a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
+++ b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
@@ -66,11 +66,12 @@ public final class Snowflake {
         }
 
         if (currentTimestamp == lastTimestamp) {
-            sequence = (sequence + 1) & maxSequence;
-            if (sequence == 0) {
+            final long nextSequence = (sequence + 1) & maxSequence;
+            if (nextSequence == 0) {
                 // Sequence Exhausted, wait till next millisecond.
                 currentTimestamp = waitNextMillis(currentTimestamp);
             }
+            sequence = nextSequence;
         } else {
             // reset sequence to start with zero for the next millisecond
             sequence = 0;
-- 
2.43.0


From 0b7687b9b47977ca471a4e3466956e0759a4c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 33/39] fix: hash accepts NaN as load factor

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index f922e9c..34eb274 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -31,7 +31,7 @@ abstract class BaseHash {
         if (initialCapacity <= 0 || initialCapacity > MAX_CAPACITY) {
             throw new IllegalArgumentException("Invalid initialCapacity: " + initialCapacity);
         }
-        if (loadFactor <= 0 || loadFactor > 1) {
+        if (!(loadFactor > 0 && loadFactor <= 1)) { // also refuses NaN
             throw new IllegalArgumentException("Invalid loadFactor: " + loadFactor);
         }
 
-- 
2.43.0


From 74946f45bce098a88b6015cd1d10e8aea92ebdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 34/39] fix: companion sort overflows the stack on adversarial
 keys

The recursion took both sides of a partition, so that keys on which the
pivots are always bad nest as deep as the range is long: 60000 ints are enough
for a StackOverflowError with the range half sorted. Recurse into the smaller
side only, and loop over the larger.
---
 .../sort/KeyValueCompanionSort.ftl            | 100 +++++++++---------
 1 file changed, 52 insertions(+), 48 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
index 1bd4bcc..cb98f15 100644
--- a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
@@ -16,7 +16,6 @@ public final class ${key.name}${value.name}CompanionSort {
      * Sun's JDK QuickSort implementation with two arrays.
      */
     public static void sort(${key.arrayType}[] pri, ${value.arrayType}[] sec, int off, int len, ${key.name}Type.Cmp cmp) {
-        // Insertion sort on smallest arrays
         if( (long) off + len > pri.length )
             throw new IllegalArgumentException(
                 "offset+len > primary.length: offset="+off+" len="+len+" array.length="+pri.length);
@@ -26,62 +25,67 @@ public final class ${key.name}${value.name}CompanionSort {
         if( off < 0 || len < 0 )
             throw new IllegalArgumentException("offset or len is negative: offset="+off+" len="+len);
 
+        while( len >= 7 ) {
+            // Choose a partition element, v
+            int m = off + ( len >> 1 ); // Small arrays, middle element
+            if( len > 7 ) {
+                int l = off;
+                int n = off + len - 1;
+                if( len > 40 ) {
+                    // Big arrays, pseudomedian of 9
+                    int s = len / 8;
+                    l = med3( pri, l, l + s, l + 2 * s, cmp );
+                    m = med3( pri, m - s, m, m + s , cmp);
+                    n = med3( pri, n - 2 * s, n - s, n , cmp );
+                }
+                m = med3( pri, l, m, n , cmp); // Mid-size, med of 3
+            }
+            ${key.arrayType} v = pri[ m ];
 
-        if( len < 7 ) {
-            for( int i = off; i < len + off; i++ ) {
-                for( int j = i; j > off && cmp.compare( pri[ j - 1 ], pri[ j ] ) > 0; j-- ) {
-                    swap( pri, sec, j, j - 1 );
+            // Establish Invariant: v* (<v)* (>v)* v*
+            int a = off, b = a, c = off + len - 1, d = c;
+            while( true ) {
+                while( b <= c && cmp.compare( pri[ b ], v ) <= 0 ) {
+                    if( cmp.compare( pri[ b ], v ) == 0 )
+                        swap( pri, sec, a++, b );
+                    b++;
                 }
+                while( c >= b && cmp.compare( pri[ c ], v ) >= 0 ) {
+                    if( cmp.compare( pri[ c ], v ) == 0 )
+                        swap( pri, sec, c, d-- );
+                    c--;
+                }
+                if( b > c )
+                    break;
+                swap( pri, sec, b++, c-- );
             }
-            return;
-        }
 
-        // Choose a partition element, v
-        int m = off + ( len >> 1 ); // Small arrays, middle element
-        if( len > 7 ) {
-            int l = off;
-            int n = off + len - 1;
-            if( len > 40 ) {
-                // Big arrays, pseudomedian of 9
-                int s = len / 8;
-                l = med3( pri, l, l + s, l + 2 * s, cmp );
-                m = med3( pri, m - s, m, m + s , cmp);
-                n = med3( pri, n - 2 * s, n - s, n , cmp );
+            // Swap partition elements back to middle
+            int s, n = off + len;
+            s = Math.min( a - off, b - a );
+            vecswap( pri, sec, off, b - s, s );
+            s = Math.min( d - c, n - d - 1 );
+            vecswap( pri, sec, b, n - s, s );
+
+            // Recursively sort the smaller side of the non-partition-elements, and go on with the
+            // larger one here: the depth of the recursion stays logarithmic
+            int left = b - a, right = d - c;
+            if( left < right ) {
+                sort( pri, sec, off, left, cmp );
+                off = n - right;
+                len = right;
+            } else {
+                sort( pri, sec, n - right, right, cmp );
+                len = left;
             }
-            m = med3( pri, l, m, n , cmp); // Mid-size, med of 3
         }
-        ${key.arrayType} v = pri[ m ];
 
-        // Establish Invariant: v* (<v)* (>v)* v*
-        int a = off, b = a, c = off + len - 1, d = c;
-        while( true ) {
-            while( b <= c && cmp.compare( pri[ b ], v ) <= 0 ) {
-                if( cmp.compare( pri[ b ], v ) == 0 )
-                    swap( pri, sec, a++, b );
-                b++;
-            }
-            while( c >= b && cmp.compare( pri[ c ], v ) >= 0 ) {
-                if( cmp.compare( pri[ c ], v ) == 0 )
-                    swap( pri, sec, c, d-- );
-                c--;
+        // Insertion sort on smallest arrays
+        for( int i = off; i < len + off; i++ ) {
+            for( int j = i; j > off && cmp.compare( pri[ j - 1 ], pri[ j ] ) > 0; j-- ) {
+                swap( pri, sec, j, j - 1 );
             }
-            if( b > c )
-                break;
-            swap( pri, sec, b++, c-- );
         }
-
-        // Swap partition elements back to middle
-        int s, n = off + len;
-        s = Math.min( a - off, b - a );
-        vecswap( pri, sec, off, b - s, s );
-        s = Math.min( d - c, n - d - 1 );
-        vecswap( pri, sec, b, n - s, s );
-
-        // Recursively sort non-partition-elements
-        if( ( s = b - a ) > 1 )
-            sort( pri, sec, off, s, cmp );
-        if( ( s = d - c ) > 1 )
-            sort( pri, sec, n - s, s, cmp );
     }
 
     /**
-- 
2.43.0


From 64c22aaf52759cfa29e0c5ebcc6d415ea8c03359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 35/39] fix: resizing a typed object array yields an Object[]

GenericArray.resize(T[]) made an Object[], so that resizing an Integer[] failed
with a ClassCastException at the caller.
---
 .../templates/com/bytefacets/collections/arrays/KeyArray.ftl  | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
index f6d5c0a..aa24b95 100644
--- a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
@@ -56,9 +56,7 @@ public final class ${type.name}Array {
 </#if>
     /** Resizes the given array to the new size. There are no bounds checks. */
     public static ${generics} ${type.javaType}[] resize(final ${type.javaType}[] array, final int newSize) {
-        final ${type.javaType}[] dest = create(newSize);
-        System.arraycopy(array, 0, dest, 0, Math.min(array.length, newSize));
-        return dest;
+        return Arrays.copyOf(array, newSize);
     }
 
     /** Fills the section of the array with the given value. There are no bounds checks. */
-- 
2.43.0


From 375cb809df4d442f6d2956caa114867b67896467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 36/39] fix: chunk stores whose last chunk reaches beyond the
 largest index overflowed their capacity

---
 .../bytefacets/collections/store/KeyChunkMatrixStore.ftl | 9 +++++++--
 .../com/bytefacets/collections/store/KeyChunkStore.ftl   | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 79858d2..6e8dc9a 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -42,7 +42,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         final int rawSize = Math.multiplyExact(initialSize, numFields);
         final int requiredChunks = (int) Math.ceil((double)rawSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-        this.capacity = (chunks.length * this.chunkSize) / numFields;
+        this.capacity = rowCapacity();
     }
 
     private void assertValidConfig(final int initialSize, final int chunkSize, final int numFields) {
@@ -117,6 +117,11 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         for(int i = oldLen; i < chunks.length; i++) {
             chunks[i] = ${type.name}Array.create(chunkSize);
         }
-        this.capacity = (chunks.length * chunkSize) / numFields;
+        this.capacity = rowCapacity();
+    }
+
+    /** The last chunk may reach beyond the largest index. */
+    private int rowCapacity() {
+        return (int) Math.min((long) chunks.length * chunkSize, Integer.MAX_VALUE) / numFields;
     }
 }
diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
index 1f585f7..19544b6 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
@@ -28,7 +28,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         final int requiredChunks = (int) Math.ceil((double)initialSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-        this.capacity = chunks.length * this.chunkSize;
+        this.capacity = cellCapacity();
     }
 
     /** Returns the value at the given index. */
@@ -75,6 +75,11 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
         for(int i = oldLen; i < chunks.length; i++) {
             chunks[i] = ${type.name}Array.create(chunkSize);
         }
-        this.capacity = chunks.length * this.chunkSize;
+        this.capacity = cellCapacity();
+    }
+
+    /** The last chunk may reach beyond the largest index. */
+    private int cellCapacity() {
+        return (int) Math.min((long) chunks.length * chunkSize, Integer.MAX_VALUE);
     }
 }
-- 
2.43.0


From 04c3f328d2dfda7dacd9e35d2055ebb1458c2917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 37/39] fix: a deque that cannot grow any further stored the
 refused value and lost its contents

---
 .../bytefacets/collections/queue/KeyDeque.ftl | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyDeque.ftl
index 285ac9f..9526e67 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyDeque.ftl
@@ -43,20 +43,17 @@ public final class ${type.name}Deque${generics} implements ${type.name}Iterable$
 
     /** Adds the value to the front of the deque. */
     public void addFirst(final ${type.javaType} value) {
+        ensureRoomForOne();
         values[head = dec(head, values.length)] = value;
         size++;
-        if(head == tail) {
-            grow();
-        }
     }
 
     /** Adds the value to the back of the deque. */
     public void addLast(final ${type.javaType} value) {
+        ensureRoomForOne();
         values[tail] = value;
         size++;
-        if(head == (tail = inc(tail, values.length))) {
-            grow();
-        }
+        tail = inc(tail, values.length);
     }
 
     /** Current size of the deque. */
@@ -154,6 +151,13 @@ public final class ${type.name}Deque${generics} implements ${type.name}Iterable$
         return i;
     }
 
+    /** Grows before the value that would fill the array is stored, because growing may be refused. */
+    private void ensureRoomForOne() {
+        if(size + 1 == values.length) {
+            grow();
+        }
+    }
+
     private static final int MAX_ARRAY_SIZE = Integer.MAX_VALUE - 8;
     private void grow() {
         final int newSize = calculateNewCapacity(this, values.length, Integer.MAX_VALUE);
@@ -163,9 +167,9 @@ public final class ${type.name}Deque${generics} implements ${type.name}Iterable$
         final ${type.arrayType}[] newValues = ${type.name}Array.create(newSize);
 
         // rebuild the queue taking the end of the queue and putting it at the beginning
-        final int numValuesAtEnd = values.length - tail;
-        final int numValuesAtBeg = tail;
-        System.arraycopy(values, tail, newValues, 0, numValuesAtEnd);
+        final int numValuesAtEnd = values.length - head;
+        final int numValuesAtBeg = head;
+        System.arraycopy(values, head, newValues, 0, numValuesAtEnd);
 
         // then taking the beginning of the old array, and put it after
         System.arraycopy(values, 0, newValues, numValuesAtEnd, numValuesAtBeg);
-- 
2.43.0


From 1deff25bcbfdd97b08d9c24972664059282de8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 38/39] fix: a heap whose comparator refuses a key was left in
 disarray

---
 .../com/bytefacets/collections/heap/BaseKeyHeap.ftl      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 77ad99d..6352fcf 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -41,6 +41,10 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
             return;
         }
 
+        // the comparator may refuse a key by throwing, which it does before anything is changed
+        for(int i = 1; i < size; i++) {
+            newComparator.compare(keys[tree[0]], keys[tree[i]]);
+        }
         comp = newComparator;
 
         for(int i = 0; i < size; i++) {
@@ -88,6 +92,9 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
     public int insert(final ${type.javaType} key) {
         // insert the new node as the bottom-rightmost leaf
         final int child = size;
+        if(child > 0) { // the comparator may refuse the key by throwing, which it does before anything is changed
+            comp.compare(key, keys[tree[(child - 1) >> 1]]);
+        }
         final int entry = allocateEntry(key);
         filterUp(child, key, entry); // place in the heap
         return entry;
@@ -137,8 +144,8 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
      * the repeat can be accomplished by setting a new time, but the entry will remain stable.
      */
     public void resetKey(final int entry, final ${type.javaType} newKey) {
-        keys[entry] = newKey;
         filterDown(filterUp(inverse[entry], newKey, entry), newKey, entry);
+        keys[entry] = newKey; // after the comparator has accepted it
     }
 
     /**
-- 
2.43.0


From 51d9a2262df98e2bf9b1434cc7fd562835bc64b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 39/39] fix: a full heap of more than 2^29 entries refuses to
 grow instead of shrinking

---
 .../src/main/java/com/bytefacets/collections/heap/BaseHeap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index 4284df3..70a8a88 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -62,7 +62,7 @@ abstract class BaseHeap {
 
     protected int calculateNewCapacity() {
         final int capacity = tree.length;
-        if (capacity == MAX_CAPACITY) {
+        if (capacity >= MAX_CAPACITY) { // more, if that was the initial capacity
             throw cannotResize(getClass(), "int[]", capacity, capacity + 1);
         }
 
-- 
2.43.0

