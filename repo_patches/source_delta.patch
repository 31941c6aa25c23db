From 0a079e7b63b9d5061538f9c2aad4492c487917c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 1/6] fix: ezip parses the number of lines to skip from its
 third argument

---
 src/main/cxx/apps/ezip.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/apps/ezip.cxx b/src/main/cxx/apps/ezip.cxx
index 1b09c7f..07be4c6 100644
--- a/src/main/cxx/apps/ezip.cxx
+++ b/src/main/cxx/apps/ezip.cxx
@@ -66,7 +66,7 @@ main (int argc, char *argv[])
 
       if (argc == 4)
         {
-          skip = especia::convert<natural> (string (argv[2]));
+          skip = especia::convert<natural> (string (argv[3]));
         }
 
       valarray<real> x;
-- 
2.43.0


From cc3d56eb845a4eacaf82227d233142d214e5f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 2/6] fix: keep the third data column aligned with its rows
 when values are missing

---
 src/main/cxx/core/dataio.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 4612c72..3847107 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -101,6 +101,8 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
               v.push_back (b);
               if (ist >> c)
                 w.push_back (c);
+              else
+                w.push_back (0.0);
 
               ++n;
             }
-- 
2.43.0


From 8cfc1ebb602c3a934fe5a035aa6a98018d8c36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 3/6] fix: reject cyclic parameter references instead of
 following them forever

---
 src/main/cxx/core/model.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index c714935..bcac193 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -657,6 +657,8 @@ private:
              i != section_name_map.end (); ++i)
           {
             const natural j = isc[i->second];
+            // A chain of references can pass each other section only once
+            size_t n = section_name_map.size ();
 
             while (!ref[j].empty ())
               {
@@ -664,7 +666,7 @@ private:
                   {
                     const natural k = isc[section_name_map[ref[j]]];
 
-                    if (j != k)
+                    if (j != k and --n > 0)
                       {
                         if (ref[k].empty ())
                           {
@@ -702,6 +704,8 @@ private:
           for (natural j = 0; j < Function::parameter_count (); ++j)
             {
               const natural k = i->second + j;
+              // A chain of references can pass each other line only once
+              size_t n = profile_name_map.size ();
 
               while (!ref[k].empty ())
                 {
@@ -710,7 +714,7 @@ private:
                     {
                       const natural l = profile_name_map[ref[k]] + j;
 
-                      if (k != l)
+                      if (k != l and --n > 0)
                         {
                           if (ref[l].empty ())
                             {
-- 
2.43.0


From ab98eb94afdea55d97f0519ff4f6f1b34d3e415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 4/6] fix: propagate exceptions thrown in fitness evaluation
 threads to the caller

---
 src/main/cxx/core/optimize.h | 57 +++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 3334019..1675cfb 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <limits>
 #include <thread>
 #include <valarray>
@@ -121,6 +122,7 @@ optimize (const F &f, const Constraint &constraint, natural n,
           const Compare &compare, const Tracing &tracer)
 {
   using std::accumulate;
+  using std::exception_ptr;
   using std::exp;
   using std::numeric_limits;
   using std::partial_sort;
@@ -183,18 +185,34 @@ optimize (const F &f, const Constraint &constraint, natural n,
         }
 #else // C++-11
       vector<thread> threads;
+      vector<exception_ptr> errors (population_size);
       threads.reserve (population_size);
       for (natural k = 0; k < population_size; ++k)
         {
-          threads.push_back (thread ([k, &f, &constraint, &x, n, &y] () {
-            y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
-          }));
+          threads.push_back (
+              thread ([k, &f, &constraint, &x, n, &y, &errors] () {
+                try
+                  {
+                    y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+                  }
+                catch (...)
+                  {
+                    errors[k] = std::current_exception ();
+                  }
+              }));
         }
       for (natural k = 0; k < population_size; ++k)
         {
           threads[k].join ();
           indexes[k] = k;
         }
+      for (natural k = 0; k < population_size; ++k)
+        {
+          if (errors[k])
+            {
+              std::rethrow_exception (errors[k]);
+            }
+        }
 #endif
       partial_sort (&indexes[0], &indexes[parent_number],
                     &indexes[population_size],
@@ -323,6 +341,7 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
           real z[])
 {
   using std::abs;
+  using std::exception_ptr;
   using std::exp;
   using std::log;
   using std::sqrt;
@@ -363,14 +382,38 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
             }
           }
 #else // C++-11
-          thread tp ([&f, &constraint, &p, n, &zp] () {
-            zp = f (&p[0], n) + constraint.cost (&p[0], n);
+          exception_ptr ep;
+          exception_ptr eq;
+          thread tp ([&f, &constraint, &p, n, &zp, &ep] () {
+            try
+              {
+                zp = f (&p[0], n) + constraint.cost (&p[0], n);
+              }
+            catch (...)
+              {
+                ep = std::current_exception ();
+              }
           });
-          thread tq ([&f, &constraint, &q, n, &zq] () {
-            zq = f (&q[0], n) + constraint.cost (&q[0], n);
+          thread tq ([&f, &constraint, &q, n, &zq, &eq] () {
+            try
+              {
+                zq = f (&q[0], n) + constraint.cost (&q[0], n);
+              }
+            catch (...)
+              {
+                eq = std::current_exception ();
+              }
           });
           tp.join ();
           tq.join ();
+          if (ep)
+            {
+              std::rethrow_exception (ep);
+            }
+          if (eq)
+            {
+              std::rethrow_exception (eq);
+            }
 #endif
           // Compute the rescaled global step size
           g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
-- 
2.43.0


From 4dac66e7187d3891bfbed34f8fa2ee27e5e8f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 5/6] fix: reject a population size that is less than twice the
 parent number

---
 src/main/cxx/core/optimizer.cxx | 14 ++++++++++++++
 src/main/cxx/core/optimizer.h   |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/src/main/cxx/core/optimizer.cxx b/src/main/cxx/core/optimizer.cxx
index 56e12fb..2ded7a2 100644
--- a/src/main/cxx/core/optimizer.cxx
+++ b/src/main/cxx/core/optimizer.cxx
@@ -4,6 +4,7 @@
 /// @date 2024
 /// @copyright MIT License
 #include <cmath>
+#include <stdexcept>
 
 #include "optimizer.h"
 
@@ -39,6 +40,13 @@ especia::Optimizer::Builder::with_problem_dimension (natural n)
 especia::Optimizer::Builder &
 especia::Optimizer::Builder::with_parent_number (natural parent_number)
 {
+  if (parent_number < 1)
+    {
+      throw std::invalid_argument (
+          "especia::Optimizer::Builder::with_parent_number() Error: the "
+          "parent number must be positive");
+    }
+
   const natural population_size = 2 * parent_number;
 
   if (this->parent_number != parent_number)
@@ -93,6 +101,12 @@ especia::Optimizer::Builder::with_stop_generation (natural stop_generation)
 especia::Optimizer
 especia::Optimizer::Builder::build ()
 {
+  if (population_size / 2 < parent_number)
+    {
+      throw std::invalid_argument (
+          "especia::Optimizer::Builder::build() Error: the population size "
+          "must be greater than or equal to twice the parent number");
+    }
   return Optimizer (*this);
 }
 
diff --git a/src/main/cxx/core/optimizer.h b/src/main/cxx/core/optimizer.h
index ae0ff4e..67213c8 100644
--- a/src/main/cxx/core/optimizer.h
+++ b/src/main/cxx/core/optimizer.h
@@ -116,6 +116,9 @@ public:
     /// Builds a new optimizer.
     ///
     /// @return the optimizer.
+    ///
+    /// @throw invalid_argument when the population size is less than twice
+    /// the parent number.
     Optimizer build ();
 
     /// Returns the problem dimension.
@@ -251,6 +254,8 @@ public:
     ///
     /// @param[in] parent_number The parent number.
     /// @return this builder.
+    ///
+    /// @throw invalid_argument when the parent number is zero.
     Builder &with_parent_number (natural parent_number = 20);
 
     /// Configures the population size.
-- 
2.43.0


From 97d0242beef486a47065ff75cc0264112f5d4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:00 +0000
Subject: [PATCH 6/6] fix: reject a model definition without any section

---
 src/main/cxx/core/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index bcac193..46eaafa 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -633,7 +633,7 @@ private:
             }
         }
 
-    if (!st.bad () and st.eof ())
+    if (!st.bad () and st.eof () and !sections.empty ())
       {
         // Index unique parameters
         for (natural i = 0, k = 0; i < msk.size (); ++i)
-- 
2.43.0

