From a153d4b7cdd734d2ec49d944c2512437c747b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:34 +0000
Subject: [PATCH 01/58] fix: refuse coefficient counts that fit no degree
 instead of exiting or guessing

pos_bissect ended the process (exit) when no degree has the requested number
of polynomials, and the hyperbolic cross returned an arbitrary degree; both
now throw std::invalid_argument, i.e. ValueError in Python.
---
 cpp/src/hermite/iterators.cpp |  9 +++++++--
 cpp/src/hermite/lib.cpp       | 10 ++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 0e9069b..cca041f 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <assert.h>
+#include <stdexcept>
 #include <unordered_map>
 #include "hermite/io.hpp"
 #include "hermite/lib.hpp"
@@ -411,8 +412,12 @@ imat Cross_iterator::s_list(u_int dim, u_int degree)
 u_int Cross_iterator::s_get_degree(u_int dim, u_int n_polys)
 {
     Cross_iterator m(dim, DEGREE_BISSECT_MAX);
-    assert (n_polys <= m.list.size());
-    return m.list[n_polys - 1][0];
+    if (n_polys < 1 || n_polys > m.list.size())
+        throw std::invalid_argument("Invalid number of polynomials");
+    u_int degree = m.list[n_polys - 1][0];
+    if (s_size(dim, degree) != n_polys)
+        throw std::invalid_argument("Invalid number of polynomials");
+    return degree;
 }
 
 u_int Cross_iterator::s_size(u_int dim, u_int degree)
diff --git a/cpp/src/hermite/lib.cpp b/cpp/src/hermite/lib.cpp
index 20ce791..44db651 100644
--- a/cpp/src/hermite/lib.cpp
+++ b/cpp/src/hermite/lib.cpp
@@ -18,6 +18,8 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <stdexcept>
+
 #include "hermite/iterators.hpp"
 #include "hermite/lib.hpp"
 #include "hermite/types.hpp"
@@ -92,10 +94,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
 
     if (img_1 > 0 || img_2 < 0)
     {
-        std::cout << "Can't find x, Invalid arguments!" << std::endl;
-        std::cout << "-> x1: " << x1 << ", img_1: " << f(x1) << std::endl;
-        std::cout << "-> x2: " << x2 << ", img_2: " << f(x2) << std::endl;
-        exit(0);
+        throw std::invalid_argument("pos_bissect: no preimage in the given range");
     }
 
     if (img_1 == 0)
@@ -113,8 +112,7 @@ u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
         {
             if (new_x == x1)
             {
-                std::cout << "[lib.cpp:pos_bissect] Can't find x, infinite loop!" << std::endl;
-                exit(1);
+                throw std::invalid_argument("pos_bissect: no preimage in the given range");
             }
 
             x1 = new_x;
-- 
2.43.0


From 6ed8ea3bf7149e8d0adb4684220f9a56a1fe566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:43 +0000
Subject: [PATCH 02/58] fix: Varf.project reads the directions from the
 position

Varf has no attribute dirs, so projecting a matrix on some of its directions
always raised AttributeError.
---
 hermipy/varf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 93fdb4f..97182ef 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -136,7 +136,7 @@ class Varf:
     def project(self, directions):
         if isinstance(directions, int):
             directions = [directions]
-        rel_dirs = [self.dirs.index(d) for d in directions]
+        rel_dirs = [self.position.dirs.index(d) for d in directions]
         p_matrix = core.project(self.matrix, self.position.dim, rel_dirs,
                                 index_set=self.index_set)
         p_pos = self.position.project(directions)
-- 
2.43.0


From 066f08fea9cdf4c87ed374584b1a9b2cfd2ed165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:45 +0000
Subject: [PATCH 03/58] fix: hermite_eval no longer writes past the end for
 degree 0

The value of the polynomial of degree 1 was stored even when only the
constant was asked for, as every integral does.
---
 cpp/src/hermite/hermite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/hermite.cpp b/cpp/src/hermite/hermite.cpp
index ed3836e..46016f6 100644
--- a/cpp/src/hermite/hermite.cpp
+++ b/cpp/src/hermite/hermite.cpp
@@ -32,7 +32,8 @@ void hermite_eval(double x,
 {
 
     values[0] = 1;
-    values[1] = x;
+    if (degree > 0)
+        values[1] = x;
 
     for (unsigned i = 1; i < degree; i++)
     {
-- 
2.43.0


From d8bf7e5cb09db792b96a73aafe4df7a14c914dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:45 +0000
Subject: [PATCH 04/58] fix: invalid requests throw instead of ending the
 process

An unknown index set, an odd degree for Fourier expansions and similar invalid
arguments called exit(), ending the interpreter that uses the library. They now
throw std::invalid_argument, i.e. ValueError in Python.
---
 cpp/src/hermite/inner.cpp     |  3 ++-
 cpp/src/hermite/iterators.cpp |  6 ++----
 cpp/src/hermite/project.cpp   |  5 +++--
 cpp/src/hermite/tensorize.cpp |  7 ++++---
 cpp/src/hermite/transform.cpp |  6 +++---
 cpp/src/hermite/varf.cpp      | 12 +++++-------
 6 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/cpp/src/hermite/inner.cpp b/cpp/src/hermite/inner.cpp
index 6c48c2b..e008309 100644
--- a/cpp/src/hermite/inner.cpp
+++ b/cpp/src/hermite/inner.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <assert.h>
+#include <stdexcept>
 
 #ifdef DEBUG
 #include <iostream>
@@ -228,7 +229,7 @@ vec inner(const vec & s1,
     else if (index_set == "cross_nc") function = inner<Cross_iterator_nc>;
     else if (index_set == "cube") function = inner<Cube_iterator>;
     else if (index_set == "rectangle") function = inner<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(s1, s2, dirs1, dirs2);
 }
 
diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index cca041f..67f2e38 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -315,8 +315,7 @@ u_int Triangle_iterator::s_find_dim(u_int degree, u_int n_polys)
 
     if (n_dim != n_polys)
     {
-        std::cerr << "Dimension not found, exiting..." << std::endl;
-        exit(1);
+        throw std::invalid_argument("Dimension not found");
     }
 
     return dim;
@@ -444,8 +443,7 @@ bool Cross_iterator_nc::s_increment(ivec & multi_index, u_int degree)
         bool triangle_full = Triangle_iterator::s_increment(multi_index, degree + dim - 1);
         if (triangle_full)
         {
-            std::cout << "[Cross_iterator_nc::s_increment]: Error, triangle is full!" << std::endl;
-            exit(1);
+            throw std::invalid_argument("[Cross_iterator_nc::s_increment]: Error, triangle is full!");
         }
         product = 1;
         for (auto i : multi_index)
diff --git a/cpp/src/hermite/project.cpp b/cpp/src/hermite/project.cpp
index c382cfa..dd04269 100644
--- a/cpp/src/hermite/project.cpp
+++ b/cpp/src/hermite/project.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <iostream>
+#include <stdexcept>
 #include "hermite/io.hpp"
 #include "hermite/iterators.hpp"
 #include "hermite/lib.hpp"
@@ -65,7 +66,7 @@ vec project_vec_nd(const vec & input, u_int dim, const ivec & dirs, std::string
     else if (index_set == "cross_nc") function = project<Cross_iterator_nc>;
     else if (index_set == "cube") function = project<Cube_iterator>;
     else if (index_set == "rectangle") function = project<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(input, dim, dirs);
 }
 
@@ -117,7 +118,7 @@ M project_mat_nd(const M & input, u_int dim, const ivec & dirs, std::string cons
     else if (index_set == "cross_nc") function = project<Cross_iterator_nc,M>;
     else if (index_set == "cube") function = project<Cube_iterator,M>;
     else if (index_set == "rectangle") function = project<Rectangle_iterator,M>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(input, dim, dirs);
 }
 
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index 5b65a1a..fc5b9ac 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <iostream>
+#include <stdexcept>
 #include <assert.h>
 
 #include <boost/numeric/ublas/matrix_sparse.hpp>
@@ -129,7 +130,7 @@ vec tensorize_vecs_dirs(const mat & inputs, const imat & dirs, std::string const
     else if (index_set == "cross_nc") function = tensorize<Cross_iterator_nc>;
     else if (index_set == "cube") function = tensorize<Cube_iterator>;
     else if (index_set == "rectangle") function = tensorize<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs, dirs);
 }
 
@@ -353,7 +354,7 @@ T tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs, std::string c
     else if (index_set == "cross_nc") function = _tensorize_mats_dirs<Cross_iterator_nc,T,S>;
     else if (index_set == "cube") function = _tensorize_mats_dirs<Cube_iterator,T,S>;
     else if (index_set == "rectangle") function = _tensorize_mats_dirs<Rectangle_iterator,T,S>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs, dirs);
 }
 
@@ -366,7 +367,7 @@ T tensorize_mats_axes(const vector<S> & inputs, std::string const & index_set)
     else if (index_set == "cross_nc") function = _tensorize_mats_axes<Cross_iterator_nc,T,S>;
     else if (index_set == "cube") function = _tensorize_mats_axes<Cube_iterator,T,S>;
     else if (index_set == "rectangle") function = _tensorize_mats_axes<Rectangle_iterator,T,S>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(inputs);
 }
 
diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index 2e3677a..01ccd4a 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -21,6 +21,7 @@
 #include <cmath>
 #include <functional>
 #include <numeric>
+#include <stdexcept>
 #include <iostream>
 #include <fstream>
 #include <tuple>
@@ -91,8 +92,7 @@ vec _transform(
             {
                 if (degree % 2 == 1)
                 {
-                    std::cout << "Use even degree for Fourier." << std::endl;
-                    exit(1);
+                    throw std::invalid_argument("Use even degree for Fourier.");
                 }
 
                 // Maximal wave number
@@ -163,7 +163,7 @@ vec transform(
     else if (index_set == "cross_nc") function = _transform<Cross_iterator_nc>;
     else if (index_set == "cube") function = _transform<Cube_iterator>;
     else if (index_set == "rectangle") function = _transform<Rectangle_iterator>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(degree, input, nodes, weights, do_fourier, forward);
 }
 
diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index b50b821..25fa0f3 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -21,6 +21,7 @@
 #include <cmath>
 
 #include <iostream>
+#include <stdexcept>
 #include <ctime>
 #include <string>
 
@@ -102,8 +103,7 @@ cube triple_products_fourier(int degree)
 
     if (degree % 2 == 1)
     {
-        std::cout << "Use even degree for Fourier" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Use even degree for Fourier");
     }
 
     // Maximal wave number
@@ -283,7 +283,7 @@ T varf(
     else if (index_set == "cross_nc") function = varf<Cross_iterator_nc,T>;
     else if (index_set == "cube") function = varf<Cube_iterator,T>;
     else if (index_set == "rectangle") function = varf<Rectangle_iterator,T>;
-    else { std::cerr << "Invalid index set!" << std::endl; exit(1); }
+    else throw std::invalid_argument("Invalid index set!");
     return function(degree, input, nodes, weights, do_fourier);
 }
 
@@ -328,8 +328,7 @@ T varfd(
     }
     else
     {
-        std::cerr << "Invalid index set!" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Invalid index set!");
     }
 
     u_int i;
@@ -412,8 +411,7 @@ mat varfd(
     }
     else
     {
-        std::cerr << "Invalid index set!" << std::endl;
-        exit(1);
+        throw std::invalid_argument("Invalid index set!");
     }
     m2->reset();
 
-- 
2.43.0


From 35100b8222165b62fb0bf4a77159c2759544c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:31 +0000
Subject: [PATCH 05/58] fix: check the sizes and directions of the arguments in
 every build

Tensorizing parts of different degrees or with repeated directions, projecting
on directions that do not exist, transforming arrays that do not match the
quadrature and similar mistakes were only detected (by ending the process) in
debug builds, and read out of bounds otherwise. They now throw
std::invalid_argument.
---
 cpp/src/hermite/discretize.cpp |  7 ++++
 cpp/src/hermite/inner.cpp      | 11 +++++-
 cpp/src/hermite/project.cpp    | 15 +++++++++
 cpp/src/hermite/tensorize.cpp  | 61 +++++++++++++++++++++-------------
 cpp/src/hermite/transform.cpp  |  8 +++++
 cpp/src/hermite/varf.cpp       |  3 ++
 6 files changed, 80 insertions(+), 25 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index bcf2fd8..721dffd 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -21,6 +21,7 @@
 #include <cmath>
 #include <dlfcn.h>
 #include <fstream>
+#include <stdexcept>
 
 #include "hermite/types.hpp"
 #include "hermite/iterators.hpp"
@@ -55,6 +56,12 @@ vec discretize(
 {
     u_int dim = nodes.size();
 
+    if (translation.size() != dim || dilation.size() != dim)
+        throw std::invalid_argument("Inconsistent dimensions");
+    for (vec const & row : dilation)
+        if (row.size() != dim)
+            throw std::invalid_argument("Inconsistent dimensions");
+
     u_int i,j;
     double* node = (double*) malloc(sizeof(double)*dim);
     double* mapped_node = (double*) malloc(sizeof(double)*dim);
diff --git a/cpp/src/hermite/inner.cpp b/cpp/src/hermite/inner.cpp
index e008309..4b7ac80 100644
--- a/cpp/src/hermite/inner.cpp
+++ b/cpp/src/hermite/inner.cpp
@@ -50,6 +50,14 @@ vec inner(const vec & s1,
     u_int i = 0,
           j = 0;
 
+    for (i = 1; i < dim1; i++)
+        if (dirs1[i] <= dirs1[i-1])
+            throw std::invalid_argument("Directions must be increasing");
+    for (i = 1; i < dim2; i++)
+        if (dirs2[i] <= dirs2[i-1])
+            throw std::invalid_argument("Directions must be increasing");
+    i = 0;
+
     ivec dirs_inner,
          dirs_result;
 
@@ -98,7 +106,8 @@ vec inner(const vec & s1,
     #endif
 
     u_int degree = Iterator::s_get_degree(dim1, s1.size());
-    assert( degree == Iterator::s_get_degree(dim2, s2.size()) );
+    if (s2.size() != Iterator::s_size(dim2, degree))
+        throw std::invalid_argument("Degrees do not match");
 
     #ifdef DEBUG
     std::cout << "Initializing iterators" <<  std::endl;
diff --git a/cpp/src/hermite/project.cpp b/cpp/src/hermite/project.cpp
index dd04269..a6f5af7 100644
--- a/cpp/src/hermite/project.cpp
+++ b/cpp/src/hermite/project.cpp
@@ -33,9 +33,21 @@ using namespace std;
 namespace hermite
 {
 
+void check_dirs(u_int dim, const ivec & dirs)
+{
+    std::vector<bool> present(dim, false);
+    for (u_int d : dirs)
+    {
+        if (d >= dim || present[d])
+            throw std::invalid_argument("Invalid directions");
+        present[d] = true;
+    }
+}
+
 template<typename Iterator>
 vec project(const vec & input, u_int dim, const ivec & dirs)
 {
+    check_dirs(dim, dirs);
     u_int n_polys = input.size();
     u_int dim_sub = dirs.size();
     u_int degree = Iterator::s_get_degree(dim, n_polys);
@@ -79,7 +91,10 @@ vec project_vec_1d(const vec & input, u_int dim, u_int dir, std::string const &
 template<typename Iterator, typename M>
 M project(const M & input, u_int dim, const ivec & dirs)
 {
+    check_dirs(dim, dirs);
     u_int n_polys = matrix::size1(input);
+    if (n_polys == 0 || matrix::size2(input) != n_polys)
+        throw std::invalid_argument("Matrix must be square");
     u_int dim_sub = dirs.size();
     u_int degree = Iterator::s_get_degree(dim, n_polys);
     u_int polys_sub = Iterator::s_size(dim_sub, degree);
diff --git a/cpp/src/hermite/tensorize.cpp b/cpp/src/hermite/tensorize.cpp
index fc5b9ac..fd71523 100644
--- a/cpp/src/hermite/tensorize.cpp
+++ b/cpp/src/hermite/tensorize.cpp
@@ -19,6 +19,7 @@
  */
 
 #include <iostream>
+#include <set>
 #include <stdexcept>
 #include <assert.h>
 
@@ -46,39 +47,49 @@ void check_dims(const imat & dirs, u_int dim)
         for (u_int j = 0; j < dirs[i].size(); j++)
         {
             u_int dir = dirs[i][j];
+            if (dir >= dim)
+                throw std::invalid_argument("Direction out of range");
             if (dirs_present[dir])
-            {
-                cout << "The same direction appears twice, exiting ..." << endl;
-                exit(1);
-            }
-            else
-            {
-                dirs_present[dir] = true;
-            }
+                throw std::invalid_argument("The same direction appears twice");
+            dirs_present[dir] = true;
         }
     }
 
     for (u_int i = 0; i < dirs_present.size(); i++)
     {
         if (!dirs_present[i])
-        {
-            cout << "Missing direction, exiting ..." << endl;
-            exit(1);
-        }
+            throw std::invalid_argument("Missing direction");
     }
 }
 
+void check_disjoint(const imat & dirs)
+{
+    std::set<u_int> dirs_present;
+    for (const ivec & ds : dirs)
+        for (u_int dir : ds)
+            if (!dirs_present.insert(dir).second)
+                throw std::invalid_argument("The same direction appears twice");
+}
+
 template<typename Iterator>
 void check_degree(u_int size, u_int dim, u_int degree)
 {
     u_int n_polys = Iterator::s_size(dim, degree);
     if (n_polys != size)
-    {
-        cout << "Size of input does not match dimension!" << endl;
-        cout << "Expected dimension: " << n_polys << endl;
-        cout << "Actual dimension: " << size << endl;
-        exit(1);
-    }
+        throw std::invalid_argument("Size of input does not match dimension!");
+}
+
+void check_square(const mat & input)
+{
+    for (const vec & row : input)
+        if (row.size() != input.size())
+            throw std::invalid_argument("Matrix must be square");
+}
+
+void check_square(const spmat & input)
+{
+    if (input.size1() != input.size2())
+        throw std::invalid_argument("Matrix must be square");
 }
 
 // }}}
@@ -100,11 +111,9 @@ vec tensorize(const mat & inputs, const imat & dirs)
     for (u_int i = 0; i < dirs.size(); i++)
         it_mul.push_back(Iterator(dims[i], degree));
 
-    #ifdef DEBUG
     check_dims(dirs, dim);
     for (u_int i = 0; i < dirs.size(); i++)
         check_degree<Iterator>(inputs[i].size(), dims[i], degree);
-    #endif
 
     u_int n_polys = Iterator::s_size(dim, degree);
     vec results(n_polys, 0.);
@@ -145,6 +154,8 @@ vec tensorize_vecs_axes(const mat & inputs, std::string const & index_set)
 
 vec tensorize_vec_id(const vec & input, u_int dim, u_int dir, std::string const & index_set)
 {
+    if (dir >= dim || input.size() == 0)
+        throw std::invalid_argument("Invalid direction or empty vector");
     u_int degree = input.size() - 1;
     vec cst(degree + 1, 0.); cst[0] = 1;
     mat vecs(dim, cst);
@@ -303,17 +314,17 @@ T _tensorize_mats_dirs(const vector<S> & inputs, const imat & dirs)
     cout << "--> Dimension = " << dim << endl;
     cout << "--> Converting arguments to sparse matrices." << endl;
     #endif
+    check_disjoint(dirs);
+    for (u_int i = 0; i < inputs.size(); i++)
+        check_square(inputs[i]);
+
     vector<spmat> sp_inputs(inputs.size());
     for (u_int i = 0; i < inputs.size(); i++)
         sp_inputs[i] = matrix::convert<spmat>(inputs[i]);
 
-    #ifdef DEBUG
-    check_dims(dirs, dim);
-
     u_int degree = Iterator::s_get_degree(dims[0], matrix::size1(inputs[0]));
     for (u_int i = 1; i < inputs.size(); i++)
         check_degree<Iterator>(matrix::size1(inputs[i]), dims[i], degree);
-    #endif
 
     spmat result = sp_inputs[0];
     ivec d = dirs[0], d_old, _a1, _a2;
@@ -374,6 +385,8 @@ T tensorize_mats_axes(const vector<S> & inputs, std::string const & index_set)
 template<typename T, typename S>
 T tensorize_mat_id(const S & input, u_int dim, u_int dir, std::string const & index_set)
 {
+    if (dir >= dim || matrix::size1(input) == 0)
+        throw std::invalid_argument("Invalid direction or empty matrix");
     u_int degree = matrix::size1(input) - 1;
     T eye = matrix::eye<T>(degree + 1);
     vector<T> mats(dim, eye);
diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index 01ccd4a..e412f4d 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -64,6 +64,14 @@ vec _transform(
         n_points_tot *= n_points[i];
     }
 
+    if (dim == 0 || do_fourier.size() != dim || weights.size() != dim)
+        throw std::invalid_argument("Inconsistent dimensions");
+    for (i = 0; i < dim; i++)
+        if (n_points[i] == 0 || weights[i].size() != n_points[i])
+            throw std::invalid_argument("Nodes and weights do not match");
+    if (input.size() != (forward ? n_points_tot : n_polys))
+        throw std::invalid_argument("Size of input does not match");
+
     vec output;
     if (forward)
     {
diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index 25fa0f3..a3de1f1 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -331,6 +331,9 @@ T varfd(
         throw std::invalid_argument("Invalid index set!");
     }
 
+    if (direction >= dim || var.size1() != m->size() || var.size2() != m->size())
+        throw std::invalid_argument("Inconsistent dimensions");
+
     u_int i;
     imat multi_indices;
     for (i = 0, m->reset(); i < var.size1(); i++, m->increment())
-- 
2.43.0


From b212a6f98562005650fe421f6a24677682ad7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:22 +0000
Subject: [PATCH 06/58] fix: build integrands under a private name and report
 the ones that do not compile

The shared library of an integrand was written in place in /tmp: a second
process could load half of it, and an interrupted compilation left a file that
was loaded ever after. An expression that does not compile ended in a call
through a null pointer. Files are now renamed into place when complete, a file
that cannot be loaded is rebuilt, and failures throw.
---
 cpp/src/hermite/discretize.cpp | 36 +++++++++++++++++++++++++++-------
 cpp/src/hermite/discretize.hpp |  2 +-
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/cpp/src/hermite/discretize.cpp b/cpp/src/hermite/discretize.cpp
index 721dffd..f354a21 100644
--- a/cpp/src/hermite/discretize.cpp
+++ b/cpp/src/hermite/discretize.cpp
@@ -18,10 +18,13 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <atomic>
 #include <cmath>
+#include <cstdio>
 #include <dlfcn.h>
 #include <fstream>
 #include <stdexcept>
+#include <unistd.h>
 
 #include "hermite/types.hpp"
 #include "hermite/iterators.hpp"
@@ -92,14 +95,19 @@ vec discretize(
     return result;
 }
 
-void intern_function(string const & function_body)
+void intern_function(string const & function_body, bool rebuild)
 {
+    // Files are built under a name of their own and renamed when complete, so
+    // that other processes never see half of one.
+    static std::atomic<unsigned> counter(0);
     string name = to_string(hash<string>()(function_body));
-    string cpp_file = "/tmp/" + name + ".cpp";
+    string tmp_name = name + "." + to_string(getpid()) + "." + to_string(counter++);
+    string cpp_file = "/tmp/" + tmp_name + ".cpp";
+    string tmp_file = "/tmp/" + tmp_name + ".so";
     string so_file = "/tmp/" + name + ".so";
     ifstream test_exists(so_file.c_str());
 
-    if(! test_exists.good()) {
+    if(rebuild || ! test_exists.good()) {
          ofstream write_function;
          write_function.open(cpp_file);
          write_function << "#define M_PI 3.14159265358979323846\n";
@@ -109,10 +117,16 @@ void intern_function(string const & function_body)
          write_function.close();
 
         // Compile file
-        string command = "c++ " + cpp_file + " -o " + so_file + " -O3 -Ofast -shared -fPIC";
+        string command = "c++ " + cpp_file + " -o " + tmp_file + " -O3 -Ofast -shared -fPIC";
         int return_value = system(command.c_str());
-        if (return_value != 0) 
-            std::cout << "Error compiling file in /tmp" << std::endl;
+        remove(cpp_file.c_str());
+        if (return_value == 0)
+            return_value = rename(tmp_file.c_str(), so_file.c_str());
+        if (return_value != 0)
+        {
+            remove(tmp_file.c_str());
+            throw std::runtime_error("Error compiling file in /tmp");
+        }
     }
 }
 
@@ -126,7 +140,15 @@ vec discretize_from_string(
     string name = to_string(hash<string>()(function_body));
     string so_file = "/tmp/" + name + ".so";
     void *function_so = dlopen(so_file.c_str(), RTLD_NOW);
-    s_func func = (s_func) dlsym(function_so, "toIntegrate");
+    if (function_so == NULL)
+    {
+        // Left incomplete by an interrupted run
+        intern_function(function_body, true);
+        function_so = dlopen(so_file.c_str(), RTLD_NOW);
+    }
+    s_func func = function_so == NULL ? NULL : (s_func) dlsym(function_so, "toIntegrate");
+    if (func == NULL)
+        throw std::runtime_error("Error loading file in /tmp");
     vec result = discretize(func, nodes, translation, dilation);
     dlclose(function_so);
     return result;
diff --git a/cpp/src/hermite/discretize.hpp b/cpp/src/hermite/discretize.hpp
index 5591134..10646d9 100644
--- a/cpp/src/hermite/discretize.hpp
+++ b/cpp/src/hermite/discretize.hpp
@@ -31,7 +31,7 @@ vec discretize(
         vec const & translation,
         mat const & dilation);
 
-void intern_function(std::string const & function_body);
+void intern_function(std::string const & function_body, bool rebuild = false);
 vec discretize_from_string(
         std::string function_body,
         mat const & nodes,
-- 
2.43.0


From 7c1dc59dd529db929f50eceeda5534889bc7db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:50 +0000
Subject: [PATCH 07/58] fix: matrix converters honour shape, strides and type
 of the array

to_boost_mat indexed rows by the number of rows (wrong for matrices that are
not square), to_mat and to_bmat ignored the row stride, integer data were
reinterpreted as doubles, and other layouts ended in an exception of type int
that Python cannot identify.
---
 cpp/src/hermite/python/converters.cpp | 88 +++++++++------------------
 1 file changed, 30 insertions(+), 58 deletions(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index 5d7b03b..f2e6e3a 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -18,7 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
-#include <iostream>
+#include <stdexcept>
 
 #include <boost/python.hpp>
 #include <boost/python/numpy.hpp>
@@ -38,7 +38,7 @@ template <>
 np::ndarray to_numpy(const mat & input)
 {
     u_int n_rows = input.size();
-    u_int n_cols = input[0].size();
+    u_int n_cols = n_rows == 0 ? 0 : input[0].size();
     p::tuple shape = p::make_tuple(n_rows, n_cols);
     p::tuple stride = p::make_tuple(sizeof(double));
     np::dtype dtype = np::dtype::get_builtin<double>();
@@ -78,93 +78,65 @@ np::ndarray to_numpy(const boost_mat & input)
     return converted.copy();
 }
 
-cmat to_bmat(const np::ndarray & input)
+// Entries as doubles, whatever the type of the input
+np::ndarray as_double(const np::ndarray & input)
 {
     if (input.get_nd() != 2)
-    {
-        cout << "Dimension must be 2" << endl;
-        throw WRONG_DIMENSION;
-    }
+        throw std::invalid_argument("Dimension must be 2");
+    return input.astype(np::dtype::get_builtin<double>());
+}
 
-    Py_intptr_t const* shape = input.get_shape();
+// Entry of a matrix of doubles with any memory layout
+double entry(const np::ndarray & input, u_int i, u_int j)
+{
     Py_intptr_t const* strides = input.get_strides();
-    double * data = reinterpret_cast<double*>(input.get_data());
+    return *reinterpret_cast<const double*>(input.get_data() + i*strides[0] + j*strides[1]);
+}
+
+cmat to_bmat(const np::ndarray & input)
+{
+    const np::ndarray array = as_double(input);
+    Py_intptr_t const* shape = array.get_shape();
 
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
-
-    if (stride_cols != 1)
-    {
-        cout << "Rows of the matrix must be stored contiguously" << endl;
-        throw ROWS_NOT_CONTIGUOUS;
-    }
+    cmat result(boost::extents[n_rows][n_cols]);
+    for (u_int i = 0; i < n_rows; ++i)
+        for (u_int j = 0; j < n_cols; j++)
+            result[i][j] = entry(array, i, j);
 
-    auto sizes = boost::extents[n_rows][n_cols];
-    cmat result = cmat(boost::multi_array_ref<double, 2>(data, sizes)); // copy
     return result;
 }
 
 boost_mat to_boost_mat(const np::ndarray & input)
 {
-    if (input.get_nd() != 2)
-    {
-        cout << "Dimension must be 2" << endl;
-        throw WRONG_DIMENSION;
-    }
-
-    Py_intptr_t const* shape = input.get_shape();
-    Py_intptr_t const* strides = input.get_strides();
-    double * data = reinterpret_cast<double*>(input.get_data());
+    const np::ndarray array = as_double(input);
+    Py_intptr_t const* shape = array.get_shape();
 
     u_int n_rows = (u_int) shape[0];
     u_int n_cols = (u_int) shape[1];
 
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
-
-    if (stride_cols != 1)
-    {
-        cout << "Rows of the matrix must be stored contiguously" << endl;
-        throw ROWS_NOT_CONTIGUOUS;
-    }
-
     boost_mat result (n_rows, n_cols);
     for (u_int i = 0; i < n_rows; ++i)
         for (u_int j = 0; j < n_cols; j++)
-            result(i, j) = data[i*n_rows + j];
+            result(i, j) = entry(array, i, j);
 
     return result;
 }
 
 mat to_mat(const np::ndarray & input)
 {
-    if (input.get_nd() != 2)
-    {
-        cout << "Dimension must be 2" << endl;
-        throw WRONG_DIMENSION;
-    }
-
-    Py_intptr_t const* shape = input.get_shape();
-    Py_intptr_t const* strides = input.get_strides();
-    double * data = reinterpret_cast<double*>(input.get_data());
+    const np::ndarray array = as_double(input);
+    Py_intptr_t const* shape = array.get_shape();
 
     u_int n_rows = (u_int) shape[0];
+    u_int n_cols = (u_int) shape[1];
 
-    u_int stride_rows = (u_int) strides[0] / sizeof(double);
-    u_int stride_cols = (u_int) strides[1] / sizeof(double);
-
-    if (stride_cols != 1)
-    {
-        cout << "Rows of the matrix must be stored contiguously" << endl;
-        throw ROWS_NOT_CONTIGUOUS;
-    }
-
-    mat result(n_rows);
+    mat result(n_rows, vec(n_cols));
     for (u_int i = 0; i < n_rows; i++)
-    {
-        result[i] = vec(data + i*stride_rows, data + (i+1)*stride_rows);
-    }
+        for (u_int j = 0; j < n_cols; j++)
+            result[i][j] = entry(array, i, j);
 
     return result;
 }
-- 
2.43.0


From de1f39e6da22a4b26a550614e413de3490197e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:39 +0000
Subject: [PATCH 08/58] fix: accept arrays of any real type where doubles are
 expected

Vectors, matrices and CSR matrices of integers, booleans or single precision
numbers were refused with "Incompatible Data Type", and complex matrices were
read as if they were real.
---
 cpp/src/hermite/python/converters.cpp | 3 +++
 hermipy/core.py                       | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hermite/python/converters.cpp b/cpp/src/hermite/python/converters.cpp
index f2e6e3a..cbb3b98 100644
--- a/cpp/src/hermite/python/converters.cpp
+++ b/cpp/src/hermite/python/converters.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <complex>
 #include <stdexcept>
 
 #include <boost/python.hpp>
@@ -83,6 +84,8 @@ np::ndarray as_double(const np::ndarray & input)
 {
     if (input.get_nd() != 2)
         throw std::invalid_argument("Dimension must be 2");
+    if (np::equivalent(input.get_dtype(), np::dtype::get_builtin<std::complex<double>>()))
+        throw std::invalid_argument("Matrix must be real");
     return input.astype(np::dtype::get_builtin<double>());
 }
 
diff --git a/hermipy/core.py b/hermipy/core.py
index cf52953..4b3a667 100644
--- a/hermipy/core.py
+++ b/hermipy/core.py
@@ -28,6 +28,9 @@ from hermipy.stats import log_stats, debug
 
 def convert_to_cpp_vec(vec):
     cpp_vec = hm_cpp.double_vec()
+    # The C++ side only takes doubles
+    if isinstance(vec, np.ndarray) and vec.dtype.kind in 'biuf':
+        vec = vec.astype(float)
     cpp_vec.extend(vec)
     return cpp_vec
 
@@ -70,10 +73,9 @@ def to_cpp_array(*args):
 def convert_to_cpp_sparse(mat):
     if not isinstance(mat, ss.csr_matrix):
         raise ValueError("Invalid argument!")
-    data = hm_cpp.double_vec()
+    data = convert_to_cpp_vec(mat.data)
     indices = hm_cpp.int_vec()
     indptr = hm_cpp.int_vec()
-    data.extend(mat.data)
     indices.extend(mat.indices.astype('uint32'))
     indptr.extend(mat.indptr.astype('uint32'))
     size1, size2 = mat.shape[0], mat.shape[1]
-- 
2.43.0


From 43a02849caaff14dc0262255a5517ff7a46a45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 09/58] fix: distinct arguments no longer share a cache entry

The hash of a number was derived from Python's hash (so -1 and -2 shared an
entry), arrays were hashed without their shape and type (and not at all when
not contiguous), and a number, the string that spells it, a symbolic
expression printing alike, None and the empty string, lists and tuples, or a
keyword argument and two positional ones were all confused, as were functions
of the same name in different modules.
---
 hermipy/cache.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 824bce6..7851d20 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -36,29 +36,40 @@ def gen_hash(extend=None):
     if extend is None:
         extend = default_extend
 
+    # Values of different types must not share a hash
+    def digest(*parts):
+        encoded_str = '-'.join(parts).encode('utf-8')
+        return hashlib.md5(encoded_str).hexdigest()
+
     def the_hash(argument):
         if isinstance(argument, str):
-            encoded_str = argument.encode('utf-8')
-            return hashlib.md5(encoded_str).hexdigest()
+            return digest('str', argument)
         if isinstance(argument, sparse.csr_matrix):
             a = argument
             new_args = [a.data, a.indices, a.indptr, a.shape]
-            return the_hash(new_args)
-        if isinstance(argument, np.ndarray):
-            return hashlib.md5(argument).hexdigest()
+            return digest('csr', the_hash(new_args))
+        if isinstance(argument, np.ndarray) and not argument.dtype.hasobject:
+            kind = argument.dtype.str + str(argument.shape)
+            data = np.ascontiguousarray(argument).tobytes()
+            return digest('array', kind, hashlib.md5(data).hexdigest())
         if isinstance(argument, sym.Basic):
-            return the_hash(str(argument))
-        if isinstance(argument, (list, tuple, frozenset)):
+            return digest('sympy', sym.srepr(argument))
+        if isinstance(argument, (list, tuple)):
             hashes = [the_hash(e) for e in argument]
-            return the_hash('list' + '-'.join(hashes))
+            return digest(type(argument).__name__, *hashes)
+        if isinstance(argument, frozenset):
+            return digest('frozenset', *sorted(the_hash(e) for e in argument))
         if isinstance(argument, dict):
-            hashes_k = ['k'] + [the_hash(kw) for kw in argument]
-            hashes_v = ['v'] + [the_hash(argument[kw]) for kw in argument]
-            return the_hash(hashes_k + hashes_v)
-        if isinstance(argument, (int, float)):
-            return the_hash(str(hash(argument)))
+            items = [the_hash(kw) + the_hash(argument[kw]) for kw in argument]
+            return digest('dict', *items)
+        if isinstance(argument, (bool, np.bool_)):
+            return digest('bool', str(bool(argument)))
+        if isinstance(argument, (int, np.integer)):
+            return digest('int', str(int(argument)))
+        if isinstance(argument, float):
+            return digest('float', float(argument).hex())
         if argument is None:
-            return the_hash("")
+            return digest('None')
         return the_hash(extend(argument))
 
     return the_hash
@@ -113,9 +124,10 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
             hashes, prefix = [], function.__name__
             for arg in args:
                 hashes.append(hash_fun(arg))
-            for kw in kwargs:
-                hashes.append(hash_fun(kw))
+            for kw in sorted(kwargs):
+                hashes.append('kw' + hash_fun(kw))
                 hashes.append(hash_fun(kwargs[kw]))
+            hashes.append(hash_fun(function.__module__))
             hash_args = hash_fun(('-'.join(hashes)))
             if settings['debug']:
                 print("Hash of arguments: " + prefix + '-' + '-'.join(hashes))
-- 
2.43.0


From f6d4bf06567618218e4e5b4c75555992b10d7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 10/58] fix: cache survives damaged entries and results it
 cannot store

Loading an empty or truncated entry raised EOFError or BadZipFile at every
later call, results such as the tuples of eigs and gmres made np.save fail (or
came back as arrays), integers beyond 2^53 lost digits, a call with
cache=False could write an entry, and two processes creating the cache
directory at the same time made one of them fail.
---
 hermipy/cache.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 7851d20..297a253 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -110,9 +110,14 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
     def extended_load(filename):
         result = np.load(filename)
         if result.shape == ():
-            result = float(result)
+            result = result.item()
         return result
 
+    # What a file can represent
+    def storable(result):
+        return isinstance(result, (int, float, np.number, sparse.csr_matrix)) \
+            or isinstance(result, np.ndarray) and not result.dtype.hasobject
+
     def cache_aux(function):
 
         @wraps(function)
@@ -133,8 +138,7 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 print("Hash of arguments: " + prefix + '-' + '-'.join(hashes))
 
             cachedir = settings['cachedir']
-            if not os.path.exists(cachedir):
-                os.makedirs(cachedir)
+            os.makedirs(cachedir, exist_ok=True)
 
             savefile = cachedir + '/' + prefix + '-' + str(hash_args)
 
@@ -155,7 +159,8 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                                 result_cache.is_integer():
                             result_cache = int(result_cache)
                         return result_cache
-                except ValueError:
+                # The file is incomplete: calculate and save again
+                except Exception:
                     cached_exists = False
 
             result = function(*args, **kwargs)
@@ -171,7 +176,7 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 return result
 
             save = sparse.save_npz if is_sparse_result else np.save
-            if settings['cache']:
+            if use_cache and storable(result):
                 save(savefile, result)
             return result
 
-- 
2.43.0


From 2a3bd027d3729b1c958f6e5ebe045a8db4a3a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 11/58] fix: disagreement with a stored entry is an error, not
 a debugger prompt

pdb.set_trace() blocked (or ended) the program before the error was raised,
sparse results were compared by their values only and not their positions, and
arrays of more than two dimensions could not be compared.
---
 hermipy/cache.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 297a253..3fa5205 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -78,8 +78,6 @@ def gen_hash(extend=None):
 def gen_error(extend=None):
 
     def default_extend(u, v):
-        import pdb
-        pdb.set_trace()
         raise ValueError("Invalid types: "
                          + str(type(u)) + ", " + str(type(v)))
 
@@ -87,14 +85,18 @@ def gen_error(extend=None):
         extend = default_extend
 
     def the_error(u, v):
-        if isinstance(u, (float, int)):
+        if isinstance(u, (float, int, np.number)):
             return abs(u - v)
         elif isinstance(u, np.ndarray):
-            return la.norm(u - v, 2)
+            if np.shape(u) != np.shape(v):
+                return np.inf
+            return la.norm((u - v).ravel())
         elif isinstance(u, sparse.csr_matrix):
             if not isinstance(v, sparse.csr_matrix):
                 raise ValueError("Type mismatch")
-            return la.norm(u.data - v.data, 2)
+            if u.shape != v.shape:
+                return np.inf
+            return la.norm((u - v).tocsr().data)
         elif isinstance(u, tuple):
             return sum([the_error(ui, vi) for ui, vi in zip(u, v)])
         return extend(u, v)
@@ -170,8 +172,6 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
                 error = error_fun(result, result_cache)
                 ok = is_sparse_cache is is_sparse_result and error < 1e-10
                 if not quiet and not ok:
-                    import pdb
-                    pdb.set_trace()
                     raise ValueError("Result does not correspond to cache")
                 return result
 
-- 
2.43.0


From 8ab50c9bdc1f2feee9d34f94a6e1d2137eea597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 12/58] fix: restore the nesting depth of the statistics when a
 call raises

---
 hermipy/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hermipy/stats.py b/hermipy/stats.py
index ebdf4ec..74f9372 100644
--- a/hermipy/stats.py
+++ b/hermipy/stats.py
@@ -67,9 +67,11 @@ def log_stats(force=False):
 
             indent += 1
             time_start = time.time()
-            result = function(*args, **kwargs)
+            try:
+                result = function(*args, **kwargs)
+            finally:
+                indent -= 1
             time_end = time.time()
-            indent -= 1
 
             if key not in stats:
                 stats[key] = {'Calls': 0, 'Time': 0}
-- 
2.43.0


From c9fc4e692852f2516c0c48d2b1200185521cf967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 13/58] fix: refuse to project a function with a factor across
 the directions

A factor that depends both on the directions kept and on others was silently
dropped, unless it depended on all the directions kept.
---
 hermipy/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/function.py b/hermipy/function.py
index 6d055ca..08bd9f2 100644
--- a/hermipy/function.py
+++ b/hermipy/function.py
@@ -139,7 +139,7 @@ function can't be split")
         for v, term in split_fun[0].items():
             if v.issubset(dirs) and v != frozenset():
                 result *= term.sym
-            elif set(dirs) != set() and set(dirs).issubset(v):
+            elif not v.isdisjoint(dirs):
                 raise ValueError("Can't project factor!")
         return Function(result, dirs=dirs)
 
-- 
2.43.0


From 2d5ba34af3fd27663cc2670a26ae8a1be05012be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 14/58] fix: normalize the weight by the number of Hermite
 directions

In a mixed position the Fourier directions were counted in the normalization of
the Gaussian weight, so flat integrals were off by powers of sqrt(2 pi).
---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 2684cc3..e0b8819 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -136,7 +136,7 @@ class Position:
         var = [func.Function.xyz[self.dirs[i]] for i in ind]
         inv_cov = la.inv(sub_cov)
         potential = 0.5 * inv_cov.dot(var - sub_mean).dot(var - sub_mean)
-        normalization = 1/(sym.sqrt((2*sym.pi)**self.dim * la.det(sub_cov)))
+        normalization = 1/(sym.sqrt((2*sym.pi)**len(ind) * la.det(sub_cov)))
         return normalization * sym.exp(-potential)
 
     def weights(self):
-- 
2.43.0


From afd6160306725ba1e2b82b97a6161cef08956907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 15/58] fix: position given by its mean or covariance only

The default directions were computed from the argument dim, which is None there.
---
 hermipy/position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index e0b8819..5d3f9d3 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -90,7 +90,7 @@ class Position:
             raise ValueError("Invalid arguments dim/dirs")
 
         # Defaults to first directions
-        self.dirs = list(range(dim)) if dirs is None else dirs
+        self.dirs = list(range(self.dim)) if dirs is None else dirs
 
         self.mean = np.zeros(self.dim) if mean is None \
             else np.asarray(mean, float)
-- 
2.43.0


From 2b45da7f515b1bf8cea9fc15e0d0bbf9b83090bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 16/58] fix: Fourier quadrature takes the dimension from the
 position given

---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 923ae72..e83fced 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -101,7 +101,7 @@ class Quad:
         # Determine dimension
         if position is not None:
             dim = position.dim
-        if dirs is not None:
+        elif dirs is not None:
             dim = len(dirs)
         elif bounds is not None:
             dim = len(bounds)
-- 
2.43.0


From c7ac0d5ea1b419feea023182a0ca7bc6a352da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 17/58] fix: mapped_nodes names the variables of the quadrature

'x_0' is not a variable, so the integrand did not compile.
---
 hermipy/quad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index e83fced..4fd1a7a 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -241,8 +241,8 @@ class Quad:
 
     def mapped_nodes(self):
         coords_nodes = []
-        for i in range(self.position.dim):
-            coord = 'x_{}'.format(i)
+        for d in self.position.dirs:
+            coord = hm.Function.x_sub[d]
             coords_nodes.append(self.discretize(coord))
         return np.asarray(np.vstack(coords_nodes)).T
 
-- 
2.43.0


From c4218ee77d068e0578accd312eef3e9e712de640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 18/58] fix: evaluate series on quadratures with the same
 non-diagonal covariance

The change of coordinates was an elementwise product of the two factors, so
evaluation was refused unless both were diagonal.
---
 hermipy/quad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 4fd1a7a..caa9f02 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -314,7 +314,7 @@ class Quad:
 
         inv = la.inv(series.position.factor)
         translation = inv.dot(self.position.mean - series.position.mean)
-        factor = inv * self.position.factor
+        factor = inv.dot(self.position.factor)
         if la.norm(factor - np.diag(np.diag(factor)), 2) > 1e-8:
             raise ValueError("Incompatible covariance matrices")
         mapped_nodes = self.nodes.copy()
-- 
2.43.0


From c12b9f832199b10661fea3483da3247020e606b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 19/58] fix: Series.to_function divides by the standard
 deviation

---
 hermipy/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 60f270d..846ebc3 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -274,7 +274,7 @@ does not match number of multi-indices!")
             var = func.Function.xyz[d]
             h0 = func.Function('1', dirs=dirs)
             μ, σ = self.position.mean[i], self.position.cov[i][i]
-            f1 = np.sqrt(σ) * (var - μ)
+            f1 = (var - μ) / np.sqrt(σ)
             h1 = func.Function(f1, dirs=dirs)
             hermite_dirs.append([h0, h1])
             for j in range(1, self.degree):
-- 
2.43.0


From 6327c1c6896308b5e77956d382ca667350ff3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 20/58] fix: Series.to_cross keeps the factor

---
 hermipy/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermipy/series.py b/hermipy/series.py
index 846ebc3..7b31aae 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -295,4 +295,5 @@ does not match number of multi-indices!")
            not degree + self.position.dim - 1 <= self.degree:
             raise ValueError("Invalid argument!")
         coeffs = self.coeffs[lib.cross_in_triangle(self.position.dim, degree)]
-        return Series(coeffs, self.position, index_set="cross")
+        return Series(coeffs, self.position,
+                      factor=self.factor, index_set="cross")
-- 
2.43.0


From ab662c3ff655ae57a7ae60fee5e57fa09f378599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 21/58] fix: solve with gmres and no preconditioner

---
 hermipy/varf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 97182ef..f5f0ee5 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -209,6 +209,7 @@ class Varf:
             # Extend hash function to ignore callback
             from scipy.sparse.linalg import gmres
             cachefun = cache.cache(quiet=True, hash_extend=lambda arg: '0')
+            M = None
             if preconditioner == 'ilu':
                 ilu, n = spla.spilu(matrix), matrix.shape[0]
                 M = spla.LinearOperator((n, n), ilu.solve)
-- 
2.43.0


From 9b914a4ceaf6322c023e18550323ca6ab7a2e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 22/58] fix: composite quadratures transform, project and
 discretize operators

Every method of CompQuad but integrate and varf raised (adding 0 to a series,
undefined name, arguments of an older interface), and equality ignored the
weights.
---
 hermipy/compquad.py | 24 ++++++++++++++++--------
 hermipy/series.py   |  1 +
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/hermipy/compquad.py b/hermipy/compquad.py
index c1624d4..0249d10 100644
--- a/hermipy/compquad.py
+++ b/hermipy/compquad.py
@@ -51,7 +51,8 @@ class CompQuad():
         if len(self.quads) != len(other.quads):
             return False
 
-        return all(q1 == q2 for q1, q2 in zip(self.quads, other.quads))
+        return list(self.qweights) == list(other.qweights) and \
+            all(q1 == q2 for q1, q2 in zip(self.quads, other.quads))
 
     def integrate(self, f):
         result = 0
@@ -75,15 +76,22 @@ class CompQuad():
 
     def varfd(self, function, degree, directions, sparse=None,
               index_set="triangle"):
-        return quad.Quad.varfd(self, function, degree, directions,
-                               sparse=sparse, index_set=index_set)
+        result = 0
+        for i, q in enumerate(self.quads):
+            varfd = q.varfd(function, degree, directions,
+                            sparse=sparse, index_set=index_set)
+            result += varfd * self.qweights[i]
+        return result
 
-    def discretize_op(self, op, func, degree, order,
-                      sparse=None, index_set="triangle"):
-        return quad.Quad.discretize_op(self, op, func, degree, order,
-                                       sparse=sparse, index_set = index_set)
+    def discretize_op(self, op, degree, sparse=None, index_set="triangle"):
+        result = 0
+        for i, q in enumerate(self.quads):
+            varf = q.discretize_op(op, degree,
+                                   sparse=sparse, index_set=index_set)
+            result += varf * self.qweights[i]
+        return result
 
-    def project(self, projection):
+    def project(self, directions):
         new_quads = [q.project(directions) for q in self.quads]
         return CompQuad(new_quads, self.qweights)
 
diff --git a/hermipy/series.py b/hermipy/series.py
index 7b31aae..823f526 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -148,6 +148,7 @@ does not match number of multi-indices!")
             raise TypeError("Invalid type: " + str(type(other)))
 
     __rmul__ = __mul__
+    __radd__ = __add__
 
     def __sub__(self, other):
         return self + other * (-1)
-- 
2.43.0


From a0cb9b290da79901c43ce4c627f9f0c2c9e3e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:34 +0000
Subject: [PATCH 23/58] fix: factor of a covariance with repeated eigenvalues

numpy's eig does not return orthogonal eigenvectors for a repeated eigenvalue,
so factor * factor^T was not the covariance and integrals were wrong.
---
 hermipy/position.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 5d3f9d3..05ee3ae 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -100,15 +100,16 @@ class Position:
 
         self.types = ["hermite"]*self.dim if types is None else types
 
-        eigval, eigvec = la.eig(self.cov)
-        self.factor = np.matmul(eigvec, np.sqrt(np.diag(eigval)))
-
         diag_cov = np.diag(np.diag(self.cov))
 
         self.is_diag = True
         if len(self.dirs) > 0 and la.norm(self.cov - diag_cov, 2) > 1e-10:
             self.is_diag = False
 
+        # eig keeps the order of a diagonal, eigh gives orthogonal vectors
+        eigval, eigvec = (la.eig if self.is_diag else la.eigh)(self.cov)
+        self.factor = np.matmul(eigvec, np.sqrt(np.diag(eigval)))
+
     def __eq__(self, other):
         return self.dirs == other.dirs \
             and la.norm(self.mean - other.mean, 2) < self.very_small \
-- 
2.43.0


From 8058a52bebfa2bf64335ac941579e4beaabb1728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:46 +0000
Subject: [PATCH 24/58] fix: transform and varf on the cross sets of degree 0

---
 cpp/src/hermite/transform.cpp | 4 ++++
 cpp/src/hermite/varf.cpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cpp/src/hermite/transform.cpp b/cpp/src/hermite/transform.cpp
index e412f4d..8f04d8e 100644
--- a/cpp/src/hermite/transform.cpp
+++ b/cpp/src/hermite/transform.cpp
@@ -172,6 +172,10 @@ vec transform(
     else if (index_set == "cube") function = _transform<Cube_iterator>;
     else if (index_set == "rectangle") function = _transform<Rectangle_iterator>;
     else throw std::invalid_argument("Invalid index set!");
+
+    // The cross sets of degree 0 contain indices equal to 1
+    if (degree == 0 && (index_set == "cross" || index_set == "cross_nc"))
+        degree = 1;
     return function(degree, input, nodes, weights, do_fourier, forward);
 }
 
diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index a3de1f1..4f73b20 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -284,6 +284,10 @@ T varf(
     else if (index_set == "cube") function = varf<Cube_iterator,T>;
     else if (index_set == "rectangle") function = varf<Rectangle_iterator,T>;
     else throw std::invalid_argument("Invalid index set!");
+
+    // The cross sets of degree 0 contain indices equal to 1
+    if (degree == 0 && (index_set == "cross" || index_set == "cross_nc"))
+        degree = 1;
     return function(degree, input, nodes, weights, do_fourier);
 }
 
-- 
2.43.0


From af7711eb468afb7b94911a87329e6a77fca0ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:54 +0000
Subject: [PATCH 25/58] fix: refuse to split operators that are not linear in
 the unknown

---
 hermipy/operator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermipy/operator.py b/hermipy/operator.py
index 40218d4..b0b1564 100644
--- a/hermipy/operator.py
+++ b/hermipy/operator.py
@@ -119,7 +119,7 @@ class Operator():
         MAX_ORDER = 5
         variables = [func.Function.x_sub[d] for d in self.dirs]
         unknown, dim = self.f(*variables), len(variables)
-        result, rem = {}, self.sym.expand()
+        result, rem = {}, self.sym.doit().expand()
         mult = list(m for m in itertools.product(range(MAX_ORDER + 1),
                     repeat=dim) if sum(m) <= MAX_ORDER)
         for m in mult:
@@ -135,6 +135,8 @@ class Operator():
                 termarg = arg.subs(unknown, test).doit()
                 if termarg == 0:
                     rem += arg
+                elif (arg/der).has(self.f):
+                    raise ValueError("Not a linear differential operator")
                 else:
                     term += termarg
             if isinstance(term, sympy.Basic):
-- 
2.43.0


From 7b84433a0a688796e9d8a38aeda00b4bf98768e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:15 +0000
Subject: [PATCH 26/58] fix: sum the entries of a CSR matrix stored in several
 parts

---
 cpp/src/hermite/sparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/hermite/sparse.cpp b/cpp/src/hermite/sparse.cpp
index 1ac9c7d..f7b466d 100644
--- a/cpp/src/hermite/sparse.cpp
+++ b/cpp/src/hermite/sparse.cpp
@@ -79,7 +79,7 @@ spmat to_spmat(const vec & data, const ivec & indices, const ivec & indptr,
     {
         for (u_int j = indptr[i]; j < indptr[i+1]; j++)
         {
-            result(i, indices[j]) = data[j];
+            result(i, indices[j]) += data[j];
         }
     }
     return result;
-- 
2.43.0


From 8abacc71aa34d0c5979b0d32c3fd3fec4c309ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:24 +0000
Subject: [PATCH 27/58] fix: compare positions without directions and
 quadratures of different sizes

---
 hermipy/position.py | 4 ++--
 hermipy/quad.py     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 05ee3ae..e35b6f0 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -112,8 +112,8 @@ class Position:
 
     def __eq__(self, other):
         return self.dirs == other.dirs \
-            and la.norm(self.mean - other.mean, 2) < self.very_small \
-            and la.norm(self.cov - other.cov, 2) < self.very_small \
+            and la.norm(self.mean - other.mean) < self.very_small \
+            and la.norm(self.cov - other.cov) < self.very_small \
             and self.types == other.types
 
     def __mul__(self, other):
diff --git a/hermipy/quad.py b/hermipy/quad.py
index caa9f02..e5af317 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -163,6 +163,7 @@ class Quad:
 
         return self.position == other.position \
             and self.factor == other.factor \
+            and self.nodes.shape == other.nodes.shape \
             and la.norm(self.nodes - other.nodes) < very_small \
             and la.norm(self.weights - other.weights) < very_small
 
-- 
2.43.0


From a1f6719703fa45755982de96e9e0467438388323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:14 +0000
Subject: [PATCH 28/58] fix: refuse to add, and tell apart, expansions of
 different degrees

---
 hermipy/series.py | 3 +++
 hermipy/varf.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index 823f526..173d664 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -110,6 +110,8 @@ does not match number of multi-indices!")
             raise ValueError("Invalid argument!")
         return self.position == other.position \
             and self.factor == other.factor \
+            and self.index_set == other.index_set \
+            and self.degree == other.degree \
             and la.norm(self.coeffs - other.coeffs) < very_small
 
     def __add__(self, other):
@@ -120,6 +122,7 @@ does not match number of multi-indices!")
         elif isinstance(other, Series):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
+               not self.degree == other.degree or \
                not self.factor == other.factor:
                 raise ValueError("Invalid argument!")
             new_coeffs = self.coeffs + other.coeffs
diff --git a/hermipy/varf.py b/hermipy/varf.py
index f5f0ee5..a5fbbfb 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -80,6 +80,8 @@ class Varf:
             raise ValueError("Invalid argument!")
         norm_func = spla.norm if self.is_sparse and other.is_sparse else la.norm
         return self.position == other.position \
+            and self.index_set == other.index_set \
+            and self.degree == other.degree \
             and norm_func(self.matrix - other.matrix) < very_small
 
     def __add__(self, other):
@@ -90,6 +92,7 @@ class Varf:
         elif isinstance(other, Varf):
             if not self.position == other.position or \
                not self.index_set == other.index_set or \
+               not self.degree == other.degree or \
                not self.factor == other.factor:
                 raise ValueError("Invalid argument!")
             new_matrix = self.matrix + other.matrix
-- 
2.43.0


From be3d171b01b24c2f771a098b5060a21def4ce2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:14 +0000
Subject: [PATCH 29/58] fix: sum of a dense and a sparse matrix applies to
 series

---
 hermipy/varf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index a5fbbfb..9a5e9dd 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -96,6 +96,9 @@ class Varf:
                not self.factor == other.factor:
                 raise ValueError("Invalid argument!")
             new_matrix = self.matrix + other.matrix
+            if isinstance(new_matrix, np.matrix):
+                # Sum of a dense and a sparse matrix
+                new_matrix = np.asarray(new_matrix)
 
         else:
             raise TypeError("Invalid type!)")
-- 
2.43.0


From 80e2b705b374677429ca65009a1fab6c4c0e9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 30/58] fix: refuse multi-index sets in dimension 0 instead of
 crashing

---
 cpp/src/hermite/iterators.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/iterators.hpp b/cpp/src/hermite/iterators.hpp
index 0d49733..d80332f 100644
--- a/cpp/src/hermite/iterators.hpp
+++ b/cpp/src/hermite/iterators.hpp
@@ -21,6 +21,7 @@
 #ifndef HERMITE_ITERATORS_H
 #define HERMITE_ITERATORS_H
 
+#include <stdexcept>
 #include <string>
 #include "hermite/io.hpp"
 #include "hermite/lib.hpp"
@@ -95,7 +96,11 @@ class Multi_index_iterator : public Vector_iterator
         u_int index_list;
         imat list;
 
-        Multi_index_iterator(u_int dim): Vector_iterator(dim), index_list(0) {}
+        Multi_index_iterator(u_int dim): Vector_iterator(dim), index_list(0)
+        {
+            if (dim == 0)
+                throw std::invalid_argument("Dimension must be positive");
+        }
 
     public:
         virtual ~Multi_index_iterator() = default;
-- 
2.43.0


From e34b35aae415d0ab68bf19353513d2d9c014c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 31/58] fix: refuse unknown types of directions

---
 hermipy/position.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermipy/position.py b/hermipy/position.py
index e35b6f0..9c394df 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -89,6 +89,9 @@ class Position:
            types is not None and not self.dim == len(types):
             raise ValueError("Invalid arguments dim/dirs")
 
+        if types is not None and not set(types) <= {"hermite", "fourier"}:
+            raise ValueError("Unknown type")
+
         # Defaults to first directions
         self.dirs = list(range(self.dim)) if dirs is None else dirs
 
-- 
2.43.0


From f021102a9fb39904b43ca4972a0f74dc3235d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 32/58] fix: refuse to compose operators over different
 directions

---
 hermipy/operator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/operator.py b/hermipy/operator.py
index b0b1564..45c4a36 100644
--- a/hermipy/operator.py
+++ b/hermipy/operator.py
@@ -95,6 +95,8 @@ class Operator():
                 arg = Operator(arg, dirs=self.dirs)
             except TypeError:
                 arg = func.Function(arg, dirs=self.dirs)
+        if isinstance(arg, Operator) and not arg.dirs == self.dirs:
+            raise ValueError("Directions differ")
         variables = [func.Function.x_sub[d] for d in self.dirs]
         sym = self.sym.subs(self.f(*variables), arg.sym).doit()
         return Operator(sym, dirs=self.dirs) if isinstance(arg, Operator) \
-- 
2.43.0


From 00654112ae1803359da2f4c665b7dfc7337a07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 33/58] fix: refuse matrices that are not square

---
 hermipy/varf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 9a5e9dd..b2adde0 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -69,6 +69,10 @@ class Varf:
         self.position = position
         self.index_set = index_set
 
+        if not len(matrix.shape) == 2 or \
+           not matrix.shape[0] == matrix.shape[1]:
+            raise ValueError("Matrix must be square!")
+
         dim, npolys = self.position.dim, self.matrix.shape[0]
         self.degree = core.iterator_get_degree(dim, npolys,
                                                index_set=index_set)
-- 
2.43.0


From 113809c4a8def1e42b9a4de4c18f640b481e4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 34/58] fix: refuse to tensorize matrices over overlapping
 directions

---
 hermipy/varf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index b2adde0..5f00f33 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -55,6 +55,8 @@ class Varf:
                not a.degree == degree:
                 raise ValueError("Invalid argument(s)")
             key = frozenset(a.position.dirs)
+            if any(key & other for other in mats):
+                raise ValueError("Direction appears more than once")
             mats[key] = a.matrix
             factor *= a.factor.sym
 
-- 
2.43.0


From c5a1e5e855be6272fd6a1058d6a1a7f01ce8fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 35/58] fix: honour options of quadrature methods given by
 position

---
 hermipy/quad.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index e5af317..c4899bb 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -16,6 +16,8 @@
 # You should have received a copy of the GNU General Public License
 # along with this program. If not, see <https://www.gnu.org/licenses/>.
 
+import inspect
+
 import hermipy as hm
 import hermipy.core as core
 import hermipy.lib as lib
@@ -177,9 +179,12 @@ class Quad:
 
     def tensorize_at(arg_num: int):
         def tensorize_arg(func):
+            parameters = list(inspect.signature(func).parameters)
+
             def wrapper(*args, **kwargs):
-                tensorize = kwargs['tensorize'] if 'tensorize' in kwargs \
-                        else None
+                # Options may be given by position or by name
+                named = dict(zip(parameters, args), **kwargs)
+                tensorize = named.get('tensorize')
                 do_tensorize = hm.settings['tensorize'] if \
                     tensorize is None else tensorize
 
@@ -227,8 +232,8 @@ class Quad:
                     if hm.settings['debug']:
                         print("Tensorizing results")
 
-                    kwargs_func = {'sparse': kwargs['sparse']} \
-                        if 'sparse' in kwargs else {}
+                    kwargs_func = {'sparse': named['sparse']} \
+                        if 'sparse' in named else {}
                     t = type(list(func_dirs.values())[0])
                     if t is hm.Varf or t is hm.Series:
                         values = list(func_dirs.values())
-- 
2.43.0


From f152864419fc7ff9ffbba97dd48b21a7733db6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:16 +0000
Subject: [PATCH 36/58] fix: refuse derivatives in directions a quadrature does
 not have

---
 hermipy/quad.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index c4899bb..f21483c 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -184,6 +184,9 @@ class Quad:
             def wrapper(*args, **kwargs):
                 # Options may be given by position or by name
                 named = dict(zip(parameters, args), **kwargs)
+                if not set(named.get('directions', [])) <= \
+                        set(args[0].position.dirs):
+                    raise ValueError("Invalid direction")
                 tensorize = named.get('tensorize')
                 do_tensorize = hm.settings['tensorize'] if \
                     tensorize is None else tensorize
-- 
2.43.0


From 621f9016ddcf5e7143fd8aac783da853dec0b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:25 +0000
Subject: [PATCH 37/58] fix: expand the function of an untensorized cross
 matrix in a set holding all products

---
 cpp/src/hermite/varf.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index 4f73b20..a19ad4b 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <algorithm>
 #include <cmath>
 
 #include <iostream>
@@ -161,6 +162,24 @@ cube triple_products_fourier(int degree)
     return products;
 }
 
+// Index set in which to expand the function: it contains the multi-indices of
+// the product of any two basis functions
+template<typename Iterator>
+struct Products
+{
+    typedef Iterator iterator;
+    static u_int degree(u_int, u_int degree) { return 2*degree; }
+};
+
+struct Products_cross
+{
+    typedef Triangle_iterator iterator;
+    static u_int degree(u_int dim, u_int degree) { return 2*(degree + dim - 1); }
+};
+
+template<> struct Products<Cross_iterator> : Products_cross {};
+template<> struct Products<Cross_iterator_nc> : Products_cross {};
+
 template<typename Iterator,typename T>
 T varf(
         u_int degree,
@@ -178,14 +197,16 @@ T varf(
     #endif
 
     // Hermite transform of input function
-    vec Hf = _transform<Iterator>(2*degree, input, nodes, weights, do_fourier, true);
+    typedef typename Products<Iterator>::iterator Iterator_f;
+    u_int degree_f = Products<Iterator>::degree(dim, degree);
+    vec Hf = _transform<Iterator_f>(degree_f, input, nodes, weights, do_fourier, true);
 
     #ifdef DEBUG
     cout << "--> Determining whether to use sparse matrices." << endl;
     #endif
 
-    // Polynomial of highest degree = 2*degree
-    Iterator m(dim, 2*degree);
+    // Polynomial of highest degree = degree_f
+    Iterator_f m(dim, degree_f);
 
     double norm = 0;
     for (u_int i = 0; i < Hf.size(); i++)
@@ -244,6 +265,12 @@ T varf(
         cout << "--> i = " << i << ", and m = " << m.get() << ", and Hf[i] = " << Hf[i] << endl;
         #endif
 
+        // Orthogonal to the products of two basis functions
+        if (*max_element(m.get().begin(), m.get().end()) > 2*degree)
+        {
+            continue;
+        }
+
         cube factors(dim);
         for (u_int d = 0; d < dim; ++d)
         {
-- 
2.43.0


From 7db01cc48b904baefee60ff81d3be279119b7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:35 +0000
Subject: [PATCH 38/58] fix: expand the function of an untensorized matrix with
 Fourier directions in a set holding all products

---
 cpp/src/hermite/varf.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/cpp/src/hermite/varf.cpp b/cpp/src/hermite/varf.cpp
index a19ad4b..d7ef14f 100644
--- a/cpp/src/hermite/varf.cpp
+++ b/cpp/src/hermite/varf.cpp
@@ -180,9 +180,11 @@ struct Products_cross
 template<> struct Products<Cross_iterator> : Products_cross {};
 template<> struct Products<Cross_iterator_nc> : Products_cross {};
 
-template<typename Iterator,typename T>
+// The function is expanded in the index set Iterator_f with degree degree_f
+template<typename Iterator,typename Iterator_f,typename T>
 T varf(
         u_int degree,
+        u_int degree_f,
         vec const & input,
         mat const & nodes,
         mat const & weights,
@@ -197,8 +199,6 @@ T varf(
     #endif
 
     // Hermite transform of input function
-    typedef typename Products<Iterator>::iterator Iterator_f;
-    u_int degree_f = Products<Iterator>::degree(dim, degree);
     vec Hf = _transform<Iterator_f>(degree_f, input, nodes, weights, do_fourier, true);
 
     #ifdef DEBUG
@@ -295,6 +295,24 @@ T varf(
     return result;
 }
 
+template<typename Iterator,typename T>
+T varf(
+        u_int degree,
+        vec const & input,
+        mat const & nodes,
+        mat const & weights,
+        ivec const & do_fourier)
+{
+    // Products of trigonometric functions reach indices that are larger than
+    // the sum of the indices
+    if (find(do_fourier.begin(), do_fourier.end(), 1) != do_fourier.end())
+        return varf<Iterator,Cube_iterator,T>(degree, 2*degree, input, nodes, weights, do_fourier);
+
+    typedef Products<Iterator> products;
+    return varf<Iterator,typename products::iterator,T>(
+            degree, products::degree(nodes.size(), degree), input, nodes, weights, do_fourier);
+}
+
 template<typename T>
 T varf(
         u_int degree,
-- 
2.43.0


From 02b24d5bfa4fd6169f68c71f6d978839af4e5036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:34 +0000
Subject: [PATCH 39/58] fix: integers too large for C were written as integers
 in the generated C code

---
 hermipy/function.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hermipy/function.py b/hermipy/function.py
index 08bd9f2..77cb292 100644
--- a/hermipy/function.py
+++ b/hermipy/function.py
@@ -116,7 +116,10 @@ class Function():
         return result
 
     def ccode(self):
-        function = sympy.ccode(self.sym)
+        # Integers that do not fit in an integer of C become floats
+        large = {i: sympy.Float(i, 17) for i in self.sym.atoms(sympy.Integer)
+                 if abs(i) >= 2**63}
+        function = sympy.ccode(self.sym.xreplace(large))
         for i, direction in enumerate(self.dirs):
             function = re.sub(r'\bx{}'.format(direction),
                               'v[{}]'.format(i), function)
-- 
2.43.0


From ff0d159c65ff5276063adb61e400255a1edeaa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:48 +0000
Subject: [PATCH 40/58] fix: Varf.subdegree on cross_nc returned entries of
 other multi-indices, as its listings are not nested

---
 hermipy/varf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 5f00f33..1b60696 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -157,6 +157,10 @@ class Varf:
                     factor=factor, index_set=self.index_set)
 
     def subdegree(self, degree):
+
+        # At the moment, only works if index set is consistent
+        if self.index_set == "cross_nc":
+            raise ValueError("cross_nc not supported!")
         if not degree <= self.degree:
             raise ValueError("Invalid argument: degree too high!")
         n_polys = core.iterator_size(self.position.dim, degree,
-- 
2.43.0


From 42c91b9eb6e1434d9133de1466606bcd69f2910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:00 +0000
Subject: [PATCH 41/58] fix: the number of polynomials of cube and rectangle
 sets of dimension 7 and more had no degree

---
 cpp/src/hermite/lib.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/lib.cpp b/cpp/src/hermite/lib.cpp
index 44db651..bfba12d 100644
--- a/cpp/src/hermite/lib.cpp
+++ b/cpp/src/hermite/lib.cpp
@@ -18,6 +18,7 @@
  * along with this program. If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "hermite/iterators.hpp"
@@ -87,7 +88,10 @@ string hash_print(const ivec & v)
 
 u_int pos_bissect(u_int image, std::function<u_int(u_int)> f, u_int max)
 {
-    u_int x1 = 0, x2 = max;
+    // Look no further than needed: f may overflow for large arguments
+    u_int x1 = 0, x2 = std::min(max, (u_int) 1);
+    while (x2 < max && f(x2) < image)
+        x2 = std::min(max, 2*x2);
 
     long img_1 = (long) f(x1) - (long) image;
     long img_2 = (long) f(x2) - (long) image;
-- 
2.43.0


From ed0c1d56c27e649ea29589bb969b050537170f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:23 +0000
Subject: [PATCH 42/58] fix: finding the degree of a cross set needed the set
 of degree 250, which no memory holds from dimension 9

---
 cpp/src/hermite/iterators.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/src/hermite/iterators.cpp b/cpp/src/hermite/iterators.cpp
index 67f2e38..ae806ba 100644
--- a/cpp/src/hermite/iterators.cpp
+++ b/cpp/src/hermite/iterators.cpp
@@ -410,7 +410,12 @@ imat Cross_iterator::s_list(u_int dim, u_int degree)
 
 u_int Cross_iterator::s_get_degree(u_int dim, u_int n_polys)
 {
-    Cross_iterator m(dim, DEGREE_BISSECT_MAX);
+    // Look no further than needed: the largest set may not fit in memory
+    u_int bound = 1;
+    while (bound < DEGREE_BISSECT_MAX && s_size(dim, bound) < n_polys)
+        bound = std::min(2*bound, (u_int) DEGREE_BISSECT_MAX);
+
+    Cross_iterator m(dim, bound);
     if (n_polys < 1 || n_polys > m.list.size())
         throw std::invalid_argument("Invalid number of polynomials");
     u_int degree = m.list[n_polys - 1][0];
-- 
2.43.0


From e2053e14be6011a64fbb2c877e960ba991271768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:02 +0000
Subject: [PATCH 43/58] fix: comparing a cached array of truth values with a
 new result raised a TypeError

---
 hermipy/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index 3fa5205..cba7e10 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -90,7 +90,7 @@ def gen_error(extend=None):
         elif isinstance(u, np.ndarray):
             if np.shape(u) != np.shape(v):
                 return np.inf
-            return la.norm((u - v).ravel())
+            return la.norm((1.*u - v).ravel())
         elif isinstance(u, sparse.csr_matrix):
             if not isinstance(v, sparse.csr_matrix):
                 raise ValueError("Type mismatch")
-- 
2.43.0


From fc8c78434555aa443a5dd092e4fe1742f3101deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:25 +0000
Subject: [PATCH 44/58] fix: refuse to multiply or integrate out a direction
 that is Hermite in one operand and Fourier in the other

---
 hermipy/position.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 9c394df..34e2a2f 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -49,8 +49,9 @@ class Position:
             for d in [d for d in p1.dirs if d in p2.dirs]:
                 i1, i2 = p1.dirs.index(d), p2.dirs.index(d)
                 if not p1.mean[i1] == p2.mean[i2] or \
-                   not p1.cov[i1][i1] == p2.cov[i2][i2]:
-                    raise ValueError("Mean or Cov do not match!")
+                   not p1.cov[i1][i1] == p2.cov[i2][i2] or \
+                   not p1.types[i1] == p2.types[i2]:
+                    raise ValueError("Mean, Cov or types do not match!")
 
             # Tensorization
             for d in dirs_result:
-- 
2.43.0


From b2c3e6e1df58421ff3008fae53177f6b165ea352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:43 +0000
Subject: [PATCH 45/58] fix: refuse positions with repeated directions

---
 hermipy/position.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hermipy/position.py b/hermipy/position.py
index 34e2a2f..6a48223 100644
--- a/hermipy/position.py
+++ b/hermipy/position.py
@@ -93,6 +93,9 @@ class Position:
         if types is not None and not set(types) <= {"hermite", "fourier"}:
             raise ValueError("Unknown type")
 
+        if dirs is not None and not len(set(dirs)) == self.dim:
+            raise ValueError("Repeated directions")
+
         # Defaults to first directions
         self.dirs = list(range(self.dim)) if dirs is None else dirs
 
@@ -152,7 +155,7 @@ class Position:
     def project(self, directions):
         if isinstance(directions, int):
             directions = [directions]
-        if not self.is_diag or not directions == sorted(directions):
+        if not self.is_diag or not directions == sorted(set(directions)):
             raise ValueError("Invalid argument!")
         dirs, dim = directions, len(directions)
         mean, cov, types = np.zeros(dim), np.zeros((dim, dim)), [""]*dim
-- 
2.43.0


From fb73f1b01a784944cfbee7f0c67b6d4c0cdf3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 46/58] fix: Quad.streamlines failed for functions and for
 directions other than the first ones

---
 hermipy/quad.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index f21483c..613e4f3 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -580,7 +580,7 @@ class Quad:
         if isinstance(fx, hm.Function):
             if factor is not None:
                 raise ValueError("Invalid argument!")
-            fx, fy = self.discretize(fx), self.discretize(fy)
+            sx, sy = self.discretize(fx), self.discretize(fy)
 
         elif isinstance(fx, hm.Series):
 
@@ -600,7 +600,8 @@ class Quad:
         for i in range(self.position.dim):
             direction = hm.Function.xyz[self.position.dirs[i]]
             n_nodes.append(len(self.nodes[i]))
-            r_nodes.append(self.project(i).discretize(direction))
+            project = self.project(self.position.dirs[i])
+            r_nodes.append(project.discretize(direction))
         sx, sy = sx.reshape(*n_nodes).T, sy.reshape(*n_nodes).T
         # magnitude = sx**2 + sy**2
         x, y = r_nodes[0], r_nodes[1]
-- 
2.43.0


From 4f163cca91110ba0afa3f096c57a4e15933c960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 47/58] fix: Quad.plot changed the coefficients of the complex
 series it was given

---
 hermipy/quad.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 613e4f3..ec8bfdd 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -502,7 +502,10 @@ class Quad:
 
             # Fix me maybe?
             if series.coeffs.dtype == np.dtype('complex128'):
-                series.coeffs = np.real(series.coeffs).copy(order='C')
+                coeffs = np.real(series.coeffs).copy(order='C')
+                series = hm.Series(coeffs, series.position,
+                                   factor=series.factor,
+                                   index_set=series.index_set)
 
             if factor is None:
                 solution = self.eval(series)
-- 
2.43.0


From 64bd1fae146c0953fe56d803188aff8b715e178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 48/58] fix: Quad.plot and Quad.streamlines failed with a
 factor given by its values

---
 hermipy/quad.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index ec8bfdd..1a21120 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -510,9 +510,10 @@ class Quad:
             if factor is None:
                 solution = self.eval(series)
 
-            elif not isinstance(factor, np.ndarray):
-                factor = hm.Function(factor, dirs=self.position.dirs)
-                factor = self.discretize(factor)
+            else:
+                if not isinstance(factor, np.ndarray):
+                    factor = hm.Function(factor, dirs=self.position.dirs)
+                    factor = self.discretize(factor)
                 solution = self.eval(series)*factor
 
             if bounds:
@@ -590,9 +591,10 @@ class Quad:
             if factor is None:
                 sx, sy = self.eval(fx), self.eval(fy)
 
-            elif not isinstance(factor, np.ndarray):
-                factor = hm.Function(factor, dirs=self.position.dirs)
-                factor = self.discretize(factor)
+            else:
+                if not isinstance(factor, np.ndarray):
+                    factor = hm.Function(factor, dirs=self.position.dirs)
+                    factor = self.discretize(factor)
                 sx, sy = self.eval(fx)*factor, self.eval(fy)*factor
 
         else:
-- 
2.43.0


From 59fdd18603792b2d10bc50702beda605b10588ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 49/58] fix: Varf.plot of a sparse matrix left out its negative
 entries

---
 hermipy/varf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 1b60696..1c94927 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -266,7 +266,7 @@ class Varf:
         rows, cols, data = [], [], []
         if self.is_sparse:
             s = self.matrix.tocoo()
-            rows, cols, data = s.row, s.col, s.data
+            rows, cols, data = s.row, s.col, abs(s.data)
         else:
             for i in range(self.matrix.shape[0]):
                 for j in range(self.matrix.shape[1]):
-- 
2.43.0


From 56de16bd405a6e6149e9f51dc3555e5152ace0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:49 +0000
Subject: [PATCH 50/58] fix: Quad.streamlines refused two expressions of
 different symbolic types

---
 hermipy/quad.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 1a21120..52426ea 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -567,6 +567,12 @@ class Quad:
             return plot
 
     def streamlines(self, fx, fy, factor=None, ax=None, **kwargs):
+        # Symbolic expressions can be of various types
+        if isinstance(fx, sym.Basic):
+            fx = hm.Function(fx, dirs=self.position.dirs)
+        if isinstance(fy, sym.Basic):
+            fy = hm.Function(fy, dirs=self.position.dirs)
+
         if not self.position.is_diag or \
            not isinstance(fx, type(fy)) or \
            self.position.dim != 2:
@@ -577,10 +583,6 @@ class Quad:
             import matplotlib.pyplot as plt
             ax = plt.subplots(1)[1]
 
-        if isinstance(fx, sym.Basic):
-            fx = hm.Function(fx, dirs=self.position.dirs)
-            fy = hm.Function(fy, dirs=self.position.dirs)
-
         if isinstance(fx, hm.Function):
             if factor is not None:
                 raise ValueError("Invalid argument!")
-- 
2.43.0


From 287fb7216f939d24f072cf5e5f149f1d649d0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:17 +0000
Subject: [PATCH 51/58] fix: a function of other directions was sampled along
 the wrong directions

---
 hermipy/function.py | 8 +++++---
 hermipy/quad.py     | 6 ++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hermipy/function.py b/hermipy/function.py
index 77cb292..2ac367a 100644
--- a/hermipy/function.py
+++ b/hermipy/function.py
@@ -47,9 +47,11 @@ class Function():
     def __init__(self, expr, dirs=None, dim=None):
 
         if isinstance(expr, Function):
-            self.sym = expr.sym
-            self.dirs = expr.dirs
-            return
+            if dirs in (None, expr.dirs) and dim is None:
+                self.sym = expr.sym
+                self.dirs = expr.dirs
+                return
+            expr = expr.sym
 
         if not isinstance(expr, sympy.Basic):
             expr = sympy.sympify(expr, locals=self.conv)
diff --git a/hermipy/quad.py b/hermipy/quad.py
index 52426ea..3957060 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -205,8 +205,7 @@ class Quad:
                     return func(*args, **kwargs)
 
                 results = []
-                if not isinstance(function, hm.Function):
-                    function = hm.Function(function, dirs=quad.position.dirs)
+                function = hm.Function(function, dirs=quad.position.dirs)
 
                 for add in function.split(legacy=False):
                     multiplicator = add[frozenset()]
@@ -256,8 +255,7 @@ class Quad:
         return np.asarray(np.vstack(coords_nodes)).T
 
     def discretize(self, f):
-        if not isinstance(f, hm.Function):
-            f = hm.Function(f, dirs=self.position.dirs)
+        f = hm.Function(f, dirs=self.position.dirs)
         function = core.discretize(f.ccode(), self.nodes,
                                    self.position.mean, self.position.factor)
         return function
-- 
2.43.0


From b83374b81dec5db9a1998a583b75b8d324478e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 52/58] fix: Quad.eval of a series of another basis or of other
 directions gave wrong values

---
 hermipy/quad.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 3957060..479ce2e 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -317,7 +317,11 @@ class Quad:
         if isinstance(series, np.ndarray):
             series = hm.Series(series, self.position, factor=self.factor)
 
+        if not series.position.dirs == self.position.dirs:
+            raise ValueError("Series and quadrature have different directions")
+
         degree, coeffs = series.degree, series.coeffs
+        do_fourier = [int(t == "fourier") for t in series.position.types]
 
         inv = la.inv(series.position.factor)
         translation = inv.dot(self.position.mean - series.position.mean)
@@ -329,7 +333,7 @@ class Quad:
             mapped_nodes[i] = n * factor[i][i] + translation[i]
 
         result = core.transform(degree, coeffs, mapped_nodes, self.weights,
-                                forward=False, do_fourier=self.do_fourier,
+                                forward=False, do_fourier=do_fourier,
                                 index_set=series.index_set)
 
         return result*self.discretize(series.factor)
-- 
2.43.0


From 31047faffd188c65b43d5c98383a738b6e3b389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 53/58] fix: Series with significant digits rounded the array
 of the caller

---
 hermipy/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index 173d664..21bdc31 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -97,6 +97,7 @@ class Series:
 does not match number of multi-indices!")
 
         if significant != 0:
+            self.coeffs = np.array(self.coeffs)
             for i, c in enumerate(self.coeffs):
                 self.coeffs[i] = round(c, significant)
 
-- 
2.43.0


From 68caf1826fc2e2dc5be1ccc775ef49b3a74f90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:04 +0000
Subject: [PATCH 54/58] fix: Series.to_function used Hermite polynomials for
 Fourier directions

---
 hermipy/series.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermipy/series.py b/hermipy/series.py
index 21bdc31..2c3d64d 100644
--- a/hermipy/series.py
+++ b/hermipy/series.py
@@ -266,6 +266,9 @@ does not match number of multi-indices!")
         if not self.position.is_diag:
             raise ValueError("Position must be diagonal!")
 
+        if "fourier" in self.position.types:
+            raise ValueError("Fourier directions are not supported!")
+
         def rec_a(i):
             return float(1/np.sqrt(i+1))
 
-- 
2.43.0


From 47616cdd2868133ac16bea7a0942a2f34d721a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 55/58] fix: Quad.norm returned None for a norm it does not
 know

---
 hermipy/quad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 479ce2e..992493a 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -291,6 +291,8 @@ class Quad:
         elif n == 1:
             return self.integrate(abs(function), flat=flat)
 
+        raise ValueError("Invalid argument: n must be 1 or 2!")
+
     @tensorize_at(1)
     @stats.debug()
     @stats.log_stats()
-- 
2.43.0


From 77245745d53b0e231efee2a069612abb82d18e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:10 +0000
Subject: [PATCH 56/58] fix: cached results with infinities or NaNs no longer
 disagree with themselves

---
 hermipy/cache.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hermipy/cache.py b/hermipy/cache.py
index cba7e10..a2cfab9 100644
--- a/hermipy/cache.py
+++ b/hermipy/cache.py
@@ -84,18 +84,25 @@ def gen_error(extend=None):
     if extend is None:
         extend = default_extend
 
+    # Infinities and NaNs that agree are at distance 0
+    def distance(u, v):
+        same = (u == v) | (u != u) & (v != v)
+        with np.errstate(invalid='ignore'):
+            return la.norm(np.where(same, 0, 1.*u - v).ravel())
+
     def the_error(u, v):
-        if isinstance(u, (float, int, np.number)):
-            return abs(u - v)
-        elif isinstance(u, np.ndarray):
+        if isinstance(u, (float, int, np.number, np.ndarray)):
             if np.shape(u) != np.shape(v):
                 return np.inf
-            return la.norm((1.*u - v).ravel())
+            return distance(np.asarray(u), np.asarray(v))
         elif isinstance(u, sparse.csr_matrix):
             if not isinstance(v, sparse.csr_matrix):
                 raise ValueError("Type mismatch")
             if u.shape != v.shape:
                 return np.inf
+            if np.array_equal(u.indptr, v.indptr) and \
+               np.array_equal(u.indices, v.indices):
+                return distance(u.data, v.data)
             return la.norm((u - v).tocsr().data)
         elif isinstance(u, tuple):
             return sum([the_error(ui, vi) for ui, vi in zip(u, v)])
@@ -169,8 +176,8 @@ def cache(hash_extend=None, error_extend=None, quiet=False):
             is_sparse_result = isinstance(result, sparse.csr_matrix)
 
             if cached_exists:
-                error = error_fun(result, result_cache)
-                ok = is_sparse_cache is is_sparse_result and error < 1e-10
+                ok = is_sparse_cache is is_sparse_result and \
+                    error_fun(result, result_cache) < 1e-10
                 if not quiet and not ok:
                     raise ValueError("Result does not correspond to cache")
                 return result
-- 
2.43.0


From 81e39af406a8259d8f18fe6d083b359e0b8b31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:10 +0000
Subject: [PATCH 57/58] fix: variational forms with different factors compared
 equal

---
 hermipy/varf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermipy/varf.py b/hermipy/varf.py
index 1c94927..5b251e9 100644
--- a/hermipy/varf.py
+++ b/hermipy/varf.py
@@ -86,6 +86,7 @@ class Varf:
             raise ValueError("Invalid argument!")
         norm_func = spla.norm if self.is_sparse and other.is_sparse else la.norm
         return self.position == other.position \
+            and self.factor == other.factor \
             and self.index_set == other.index_set \
             and self.degree == other.degree \
             and norm_func(self.matrix - other.matrix) < very_small
-- 
2.43.0


From 685c6a3be0b243e01e2843bcb1729c110cd0a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 58/58] fix: the rounding of a tensorized transform was applied
 to its parts instead of to the result

---
 hermipy/quad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermipy/quad.py b/hermipy/quad.py
index 992493a..217df48 100644
--- a/hermipy/quad.py
+++ b/hermipy/quad.py
@@ -196,6 +196,10 @@ class Quad:
                     do_tensorize = False
                 # ->
 
+                # Rounding applies to the result and not to its parts
+                if named.get('significant', 0) != 0:
+                    do_tensorize = False
+
                 if not do_tensorize:
                     return func(*args, **kwargs)
 
-- 
2.43.0

