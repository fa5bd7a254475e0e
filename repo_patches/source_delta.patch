From 5b38b8e1c7f9f02e5a1db7a19f448102fc130d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 01/22] fix: even order splines report wrong range and carry a
 surplus periodic knot

The end of the range of an even order spline was taken one knot before the
actual end, because periodic even order knot vectors have one knot too many.
Checked access thus rejects valid coordinates of aperiodic dimensions, and with
cell layout the coordinate wrapping to the end of a period, as well as the
evaluation proxy, address control points beyond the last cell.
---
 src/include/BSpline.hpp       | 2 +-
 src/include/Interpolation.hpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 3b9831b..aa539c9 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -223,7 +223,7 @@ class BSpline {
         knots_[dim_ind] = std::forward<C>(_knots);
         range_[dim_ind].first = knots_[dim_ind][order];
         range_[dim_ind].second =
-            knots_[dim_ind][knots_[dim_ind].size() - order - (2 - order % 2)];
+            knots_[dim_ind][knots_[dim_ind].size() - order - 1];
     }
 
 #ifdef INTP_CELL_LAYOUT
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 41c1a22..a5d3da2 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -335,15 +335,18 @@ class InterpolationFunction {
         dx_[dim_ind] =
             (x_range.second - x_range.first) / static_cast<coord_type>(n - 1);
 
-        const size_t extra = periodic ? 2 * order + (1 - order % 2) : order + 1;
+        const size_t extra = periodic ? 2 * order : order + 1;
 
         std::vector<coord_type> xs(n + extra, x_range.first);
 
         if (periodic) {
+            // knots are data points, shifted by half of grid size if spline
+            // order is even
             for (size_type i = 0; i < xs.size(); ++i) {
                 xs[i] = x_range.first +
                         (static_cast<coord_type>(i) -
-                         coord_type{.5} * static_cast<coord_type>(extra)) *
+                         coord_type{.5} * static_cast<coord_type>(
+                                              extra + (1 - order % 2))) *
                             dx_[dim_ind];
             }
         } else {
@@ -392,7 +395,7 @@ class InterpolationFunction {
         (void)mesh_dimension;
 #endif
         typename spline_type::KnotContainer xs(
-            periodic ? n + 2 * order + (1 - order % 2) : n + order + 1);
+            periodic ? n + 2 * order : n + order + 1);
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-- 
2.43.0


From 867c8f7d8be7d1739655df018061cea57cca8698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 02/22] fix: copying an interpolation template loses its
 solvers before C++17

The copy constructor of the union-like solver storage did nothing, so that a
copied (or moved) template solves with an inactive union member.
---
 src/include/InterpolationTemplate.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 843bc0b..e067d1b 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -221,10 +221,20 @@ class InterpolationFunctionTemplate {
             return *this;
         }
 
-        // Copy constructor is required by aggregate initialization, but never
-        // invoked in this code since the content of this union is never
-        // switched.
-        EitherSolver(const EitherSolver&) {}
+        // Copy the active union member. Required by aggregate initialization
+        // and by copying of the template.
+        EitherSolver(const EitherSolver& other)
+            : is_active_(other.is_active_), is_periodic_(other.is_periodic_) {
+            if (is_active_) {
+                if (is_periodic_) {
+                    new (&solver_periodic)
+                        extended_solver_type(other.solver_periodic);
+                } else {
+                    new (&solver_aperiodic)
+                        base_solver_type(other.solver_aperiodic);
+                }
+            }
+        }
         // Destructor needed and it invokes either member's destructor according
         // to the tag "is_periodic";
         ~EitherSolver() {
-- 
2.43.0


From 9d96aaf9b3a926e37e5fa3ab3736348920def339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 03/22] fix: band matrix vector product multiplies by the
 transposed matrix

Bands are stored aligned by column while the product read them as rows, which
is wrong for non-symmetric matrices and out of bounds for unequal bandwidths.
---
 src/include/BandMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/BandMatrix.hpp b/src/include/BandMatrix.hpp
index 2a4d9ec..db65499 100644
--- a/src/include/BandMatrix.hpp
+++ b/src/include/BandMatrix.hpp
@@ -68,9 +68,9 @@ class BandMatrix {
     util::remove_cvref_t<Vec> operator*(const Vec& x) const {
         util::remove_cvref_t<Vec> xx(x.size());
         for (size_type i = 0; i < x.size(); ++i) {
-            for (size_type j = p_ > i ? p_ - i : 0, k = i > p_ ? i - p_ : 0;
-                 j < std::min(p_ + q_ + 1, n_ + p_ - i); ++j, ++k) {
-                xx[i] += bands_(i, j) * x[k];
+            for (size_type j = i > p_ ? i - p_ : 0;
+                 j < std::min(i + q_ + 1, n_); ++j) {
+                xx[i] += operator()(i, j) * x[j];
             }
         }
         return xx;
-- 
2.43.0


From 3f3f5e51f7f78942782ac317985ed6f8cde2870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 04/22] fix: per-dimension mesh iterators do not compile when
 const or compared

The end iterator of a const mesh, the ordering and the arrow operator of the
iterator fail to compile once used.
---
 src/include/Mesh.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index b2b8ffb..416aa79 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -154,14 +154,14 @@ class Mesh {
             : ptr_(ptr), step_length_(step_length) {}
 
         // allow iterator to const_iterator conversion
-        operator skip_iterator<const T>() { return {ptr_, step_length_}; }
+        operator skip_iterator<const T>() const { return {ptr_, step_length_}; }
         // cast to (const) underlying pointer type
         explicit operator const_pointer() const { return ptr_; }
 
         // forward iterator requirement
 
-        reference operator*() { return *ptr_; }
-        reference operator->() { return ptr_; }
+        reference operator*() const { return *ptr_; }
+        pointer operator->() const { return ptr_; }
 
         bool operator==(const skip_iterator& other) const {
             return this->ptr_ == other.ptr_ &&
@@ -199,7 +199,7 @@ class Mesh {
             ptr_ += n * step_length_;
             return *this;
         }
-        skip_iterator operator+(difference_type n) {
+        skip_iterator operator+(difference_type n) const {
             skip_iterator tmp(*this);
             return tmp += n;
         }
@@ -211,16 +211,16 @@ class Mesh {
             ptr_ -= n * step_length_;
             return *this;
         }
-        skip_iterator operator-(difference_type n) {
+        skip_iterator operator-(difference_type n) const {
             skip_iterator tmp(*this);
             return tmp -= n;
         }
 
-        difference_type operator-(skip_iterator other) {
+        difference_type operator-(skip_iterator other) const {
             return (ptr_ - other.ptr_) / step_length_;
         }
 
-        reference operator[](difference_type n) {
+        reference operator[](difference_type n) const {
             return *(ptr_ + n * step_length_);
         }
 
@@ -365,8 +365,9 @@ class Mesh {
                                       index_type indices) const {
         indices[dim_ind] = dimension_.dim_size(dim_ind);
         return skip_iterator<const val_type>(
-            storage_.data() + indexing(indices),
-            dimension_.dim_acc_size(dim - dim_ind - 1));
+            storage_.data() + dimension_.indexing(indices),
+            static_cast<typename skip_iterator<val_type>::difference_type>(
+                dimension_.dim_acc_size(dim - dim_ind - 1)));
     }
 
     index_type iter_indices(const_iterator iter) const {
-- 
2.43.0


From 36952b8277473858d8f834804a2007e31afbdc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 05/22] fix: thread pool shutdown races with its workers and
 may never return

The termination flag was a plain bool written without the mutex of the
condition variable: a worker that has evaluated its wait predicate but not yet
gone to sleep misses the notification, and joining it blocks forever.
---
 src/include/DedicatedThreadPool.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index fb6e9df..edf7f14 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -1,6 +1,7 @@
 #ifndef INTP_THREAD_POOL
 #define INTP_THREAD_POOL
 
+#include <atomic>
 #include <future>   //unique_lock, packaged_task
 #include <mutex>    // mutex
 #include <queue>    // deque
@@ -105,8 +106,7 @@ class DedicatedThreadPool {
 #endif
         } catch (...) {  // in this case dtor is not called, so threads
                          // termination should be proper handled here
-            should_terminate = true;
-            cv.notify_all();
+            terminate();
             throw;
         }
     }
@@ -115,8 +115,7 @@ class DedicatedThreadPool {
     using return_type = T;
 
     ~DedicatedThreadPool() {
-        should_terminate = true;
-        cv.notify_all();
+        terminate();
 
 #ifdef INTP_DEBUG
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
@@ -204,6 +203,19 @@ class DedicatedThreadPool {
         }
     };
 
+    /**
+     * @brief Tell all threads to stop. The flag is set with main queue locked,
+     * otherwise a thread which has just found it unset may miss the
+     * notification and sleep forever.
+     */
+    void terminate() {
+        {
+            lock_type lk(main_queue_mutex);
+            should_terminate = true;
+        }
+        cv.notify_all();
+    }
+
     bool try_pop_from_main(task_type& task) {
         {
             lock_type lk(main_queue_mutex);
@@ -259,7 +271,8 @@ class DedicatedThreadPool {
 #ifdef INTP_DEBUG
     size_t submitted{};
 #endif
-    bool should_terminate = false;  // Tells threads to stop looking for tasks
+    // Tells threads to stop looking for tasks
+    std::atomic<bool> should_terminate{false};
     std::mutex main_queue_mutex;    // Protects main task queue
     std::condition_variable cv;     // Signals for thread sleep/awake
     std::vector<std::thread> threads;  // Thread container
-- 
2.43.0


From 8799a51802e4c42de3c79840bd9c35996a76f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 06/22] fix: thread pool debug statistics are read while
 workers still write them

---
 src/include/DedicatedThreadPool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index edf7f14..6aedd81 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -118,6 +118,10 @@ class DedicatedThreadPool {
         terminate();
 
 #ifdef INTP_DEBUG
+        // statistics below are written by worker threads
+        for (auto& t : threads) {
+            if (t.joinable()) { t.join(); }
+        }
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
                   << " threads.\n"
                   << "[DEBUG]    Main queue has " << submitted
-- 
2.43.0


From 21550e8dfa943d8713000b60bb20743e84a16212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 07/22] fix: 1D template default range of periodic data without
 dummy point

The default coordinates are 0, 1, 2, ..., so the period of n points without a
dummy point is n, as in InterpolationFunction1D.
---
 src/include/InterpolationTemplate.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index e067d1b..eaa7c9e 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -602,7 +602,13 @@ class InterpolationFunctionTemplate1D
         : InterpolationFunctionTemplate1D(
               std::make_pair(
                   typename base::coord_type{},
-                  static_cast<typename base::coord_type>(f_length - 1)),
+                  static_cast<typename base::coord_type>(f_length
+#ifdef INTP_PERIODIC_NO_DUMMY_POINT
+                                                         - (periodicity ? 0 : 1)
+#else
+                                                         - 1
+#endif
+                                                             )),
               f_length,
               periodicity) {}
 
-- 
2.43.0


From 1e8b755fb2f0d487c82b187f23b1102b8e347604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 08/22] fix: order 0 nonuniform aperiodic interpolation reads
 past its coordinates

The window of the moving average is empty for order 0: the knots were computed
by dividing by zero and one coordinate too many was read.
---
 src/include/Interpolation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index a5d3da2..546f306 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -436,13 +436,20 @@ class InterpolationFunction {
                 input_coord.emplace_back(*(++it));
                 window_sum += input_coord[i];
             }
-            for (size_type i = order + 1; i < n; ++i) {
+            for (size_type i = order + 1; i < n && order > 0; ++i) {
                 input_coord.emplace_back(*(++it));
                 window_sum += input_coord[i - 1];
                 xs[i] = window_sum / static_cast<coord_type>(order);
                 window_sum -= input_coord[i - order];
             }
+            // Knots of a step function (order 0) are at the middle of data
+            // points
+            for (size_type i = 1; i < n - 1 && order == 0; ++i) {
+                input_coord.emplace_back(*(++it));
+                xs[i] = .5 * (input_coord[i - 1] + input_coord[i]);
+            }
             auto r_knot = *(++it);
+            if (order == 0) { xs[n - 1] = .5 * (input_coord.back() + r_knot); }
             // fill rightmost *order+1* identical knots
             for (size_type i = n; i < n + order + 1; ++i) { xs[i] = r_knot; }
             // last knot is same as last input coordinate
-- 
2.43.0


From 9d56c8fdd730d265a2cada5528e143ad80242eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 09/22] fix: derivative does not compile for long double
 coordinates

---
 src/include/Interpolation.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 546f306..ec681c4 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -308,11 +308,13 @@ class InterpolationFunction {
             uniform_[di]
                 ? std::min(spline_.knots_num(di) - order - 2,
                            static_cast<size_type>(std::ceil(std::max(
-                               0., (c[di] - range(di).first) / dx_[di] -
-                                       (periodicity(di)
-                                            ? 1.
-                                            : .5 * static_cast<coord_type>(
-                                                       order + 1))))) +
+                               coord_type{0.},
+                               (c[di] - range(di).first) / dx_[di] -
+                                   (periodicity(di)
+                                        ? coord_type{1.}
+                                        : coord_type{.5} *
+                                              static_cast<coord_type>(
+                                                  order + 1))))) +
                                order)
                 : order,
             static_cast<size_type>(d[di]))...});
-- 
2.43.0


From 68adfa6aaddf772b2604f0f671a6af32aba56ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:49 +0000
Subject: [PATCH 10/22] fix: odr-used static members are left undefined before
 C++17

Interpolation functions do not link when compiled for C++11 or C++14, since
the static data members passed by reference have no definition.
---
 src/include/BSpline.hpp               | 10 ++++++++++
 src/include/Interpolation.hpp         | 10 ++++++++++
 src/include/InterpolationTemplate.hpp | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index aa539c9..74f54b7 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -759,6 +759,16 @@ class BSpline {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// Static data members are not implicitly inline before C++17, their definitions
+// are required once odr-used.
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename BSpline<T, D, O, U>::size_type BSpline<T, D, O, U>::order;
+#endif
+
 }  // namespace intp
 
 #endif
diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index ec681c4..f4d66c9 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -518,6 +518,16 @@ class InterpolationFunction {
 #endif  // INTP_CELL_LAYOUT
 };
 
+#if __cplusplus < 201703L
+// Static data members are not implicitly inline before C++17, their definitions
+// are required once odr-used.
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type InterpolationFunction<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunction<T, D, O, U>::size_type InterpolationFunction<T, D, O, U>::order;
+#endif
+
 template <std::size_t O = std::size_t{3},
           typename T = double,
           typename U = double>
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index eaa7c9e..3ea4bd2 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -590,6 +590,16 @@ class InterpolationFunctionTemplate {
     }
 };
 
+#if __cplusplus < 201703L
+// Static data members are not implicitly inline before C++17, their definitions
+// are required once odr-used.
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunctionTemplate<T, D, O, U>::size_type InterpolationFunctionTemplate<T, D, O, U>::dim;
+
+template <typename T, std::size_t D, std::size_t O, typename U>
+constexpr typename InterpolationFunctionTemplate<T, D, O, U>::size_type InterpolationFunctionTemplate<T, D, O, U>::order;
+#endif
+
 template <std::size_t O, typename T = double, typename U = double>
 class InterpolationFunctionTemplate1D
     : public InterpolationFunctionTemplate<T, size_t{1}, O, U> {
-- 
2.43.0


From 200a26d6fb5218119c9d2a9b07b46dcc44ae4d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:45 +0000
Subject: [PATCH 11/22] fix: converting a far away coordinate to a knot index
 is undefined

---
 src/include/Interpolation.hpp | 42 ++++++++++++++---------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index f4d66c9..28fe21d 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -274,24 +274,27 @@ class InterpolationFunction {
 
     // auxiliary methods
 
+    // Index of the knot supposed to be left of x in a uniform dimension. It is
+    // limited before being converted to integer, since the conversion is
+    // undefined for a coordinate too far away.
+    inline size_type knot_hint_(size_type d, coord_type x) const {
+        const size_type last = spline_.knots_num(d) - order - 2;
+        const coord_type pos = std::ceil(
+            (x - range(d).first) / dx_[d] -
+            (periodicity(d)
+                 ? coord_type{1.}
+                 : coord_type{.5} * static_cast<coord_type>(order + 1)));
+        return pos >= static_cast<coord_type>(last - order)
+                   ? last
+                   : order + (pos > 0 ? static_cast<size_type>(pos) : 0);
+    }
+
     template <size_type... di>
     inline DimArray<std::pair<coord_type, size_type>> add_hint_for_spline(
         util::index_sequence<di...>,
         DimArray<coord_type> c) const {
         return {std::make_pair(
-            c[di],
-            uniform_[di]
-                ? std::min(
-                      spline_.knots_num(di) - order - 2,
-                      static_cast<size_type>(std::ceil(std::max(
-                          coord_type{0.},
-                          (c[di] - range(di).first) / dx_[di] -
-                              (periodicity(di)
-                                   ? coord_type{1.}
-                                   : coord_type{.5} * static_cast<coord_type>(
-                                                          order + 1))))) +
-                          order)
-                : order)...};
+            c[di], uniform_[di] ? knot_hint_(di, c[di]) : order)...};
     }
 
     inline val_type call_op_helper(DimArray<coord_type> c) const {
@@ -305,18 +308,7 @@ class InterpolationFunction {
                                       DimArray<size_type> d) const {
         return spline_.derivative_at({std::make_tuple(
             static_cast<coord_type>(c[di]),
-            uniform_[di]
-                ? std::min(spline_.knots_num(di) - order - 2,
-                           static_cast<size_type>(std::ceil(std::max(
-                               coord_type{0.},
-                               (c[di] - range(di).first) / dx_[di] -
-                                   (periodicity(di)
-                                        ? coord_type{1.}
-                                        : coord_type{.5} *
-                                              static_cast<coord_type>(
-                                                  order + 1))))) +
-                               order)
-                : order,
+            uniform_[di] ? knot_hint_(di, c[di]) : order,
             static_cast<size_type>(d[di]))...});
     }
 
-- 
2.43.0


From db626ca042460ad62813e51c3919ef9ca37142ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:29 +0000
Subject: [PATCH 12/22] fix: tasks of a failed multithreaded construction
 outlive the data they refer to

---
 src/include/BSpline.hpp               |  3 +++
 src/include/DedicatedThreadPool.hpp   | 17 +++++++++++++++++
 src/include/InterpolationTemplate.hpp |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 74f54b7..66ccd2f 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -740,6 +740,9 @@ class BSpline {
 
         auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
         std::vector<std::future<void>> res;
+        res.reserve(block_num);
+        // tasks use local variables, wait for them however the scope is left
+        FutureGuard guard(res);
 
         for (size_type i = 0; i < block_num; ++i) {
             res.push_back(thread_pool.queue_task([=]() {
diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index 6aedd81..2678c26 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -304,6 +304,23 @@ thread_local typename DedicatedThreadPool<T>::shared_working_queue*
     DedicatedThreadPool<T>::worker_queue_ptr{};
 #endif
 
+/**
+ * @brief Waits for tasks at the end of scope. Tasks referring to local variables
+ * should not outlive them, even if the scope is left by an exception.
+ */
+struct FutureGuard {
+    std::vector<std::future<void>>& futures_;
+
+    FutureGuard(std::vector<std::future<void>>& futures) : futures_(futures) {}
+    FutureGuard(const FutureGuard&) = delete;
+    FutureGuard& operator=(const FutureGuard&) = delete;
+    ~FutureGuard() {
+        for (auto& f : futures_) {
+            if (f.valid()) { f.wait(); }
+        }
+    }
+};
+
 }  // namespace intp
 
 #endif  // INTP_THREAD_POOL
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 3ea4bd2..de03369 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -563,6 +563,9 @@ class InterpolationFunctionTemplate {
 
             auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
             std::vector<std::future<void>> res;
+            res.reserve(block_num);
+            // tasks use local variables, wait for them however the scope is left
+            FutureGuard guard(res);
 
             for (size_type i = 0; i < block_num; ++i) {
                 // use thread pool here may seem to be a bit overhead
-- 
2.43.0


From 0e5cc9bfe591a9aaff51defb4941dc8694ae8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:53 +0000
Subject: [PATCH 13/22] fix: BSpline.hpp does not compile on its own with
 INTP_TRACE

---
 src/include/BSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 66ccd2f..cd05a80 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -13,7 +13,7 @@
 #include "DedicatedThreadPool.hpp"
 #endif
 
-#ifdef INTP_DEBUG
+#if defined(INTP_DEBUG) || defined(INTP_TRACE)
 #include <iostream>
 #endif
 
-- 
2.43.0


From 594ae8727dd714e04552a89d89526d3ec13cc782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:14 +0000
Subject: [PATCH 14/22] fix: LU solver of periodic band matrices overruns when
 the bands are wide

---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 726faae..2ee450c 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -249,7 +249,7 @@ class BandLU<ExtendedBandMatrix<Ts...>>
 
             // right side bands
             if (j > n - p - 1) {
-                for (size_type i = 0; i < j - q; ++i) {
+                for (size_type i = 0; i + q < j; ++i) {
                     iter[static_cast<ind_type>(i)] -=
                         lu_store_.side_bands_val(i, j) *
                         iter[static_cast<ind_type>(j)];
-- 
2.43.0


From 530f62ae0705474f503bfee78dd18bdd058fe1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:52 +0000
Subject: [PATCH 15/22] fix: failed allocation of a default constructed solver
 terminates the program

BandLUBase() was declared noexcept although the matrix it contains allocates,
so std::bad_alloc could not reach the caller.
---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 2ee450c..1edf781 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -17,7 +17,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
    public:
     using matrix_type = Matrix;
 
-    BandLUBase() noexcept : is_computed_(false) {}
+    BandLUBase() : is_computed_(false) {}
 
     template <typename Mat_>
     BandLUBase(Mat_&& mat) : lu_store_(std::forward<Mat_>(mat)) {
-- 
2.43.0


From b939a8d61e07ee9dc7a693dc86c3456c45226ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:52 +0000
Subject: [PATCH 16/22] fix: solver union destroys a member whose construction
 failed

Before C++17 the active flag was set before the union member was constructed,
so a failed allocation led to the destruction of an unconstructed solver.
---
 src/include/InterpolationTemplate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index de03369..d83a8c5 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -210,13 +210,13 @@ class InterpolationFunctionTemplate {
                 throw std::runtime_error("Can not switch solver type.");
             }
 
-            is_active_ = true;
-            is_periodic_ = is_periodic;
-            if (is_periodic_) {
+            if (is_periodic) {
                 new (&solver_periodic) extended_solver_type;
             } else {
                 new (&solver_aperiodic) base_solver_type;
             }
+            is_active_ = true;
+            is_periodic_ = is_periodic;
 
             return *this;
         }
-- 
2.43.0


From 94db1fab1519933936de9dc14a9967e557042381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:41 +0000
Subject: [PATCH 17/22] fix: read the coordinates of a nonuniform dimension
 only once

std::distance() exhausts single-pass (input) iterators, which the constructor
accepts, so the coordinates read afterwards were garbage.
---
 src/include/Interpolation.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 28fe21d..6fd28d1 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -371,8 +371,11 @@ class InterpolationFunction {
         uniform_[dim_ind] = false;
         const auto periodic = periodicity(dim_ind);
 
-        const size_type n{static_cast<size_type>(
-            std::distance(x_range.first, x_range.second))};
+        // The x_range may be given by input iterators, which can not be
+        // multi-passed.
+        const typename spline_type::KnotContainer coords(x_range.first,
+                                                         x_range.second);
+        const size_type n = coords.size();
 #ifdef INTP_PERIODIC_NO_DUMMY_POINT
         INTP_ASSERT(n == mesh_dimension.dim_size(dim_ind) + (periodic ? 1 : 0),
                     std::string("Inconsistency between knot number and "
@@ -393,13 +396,11 @@ class InterpolationFunction {
 
         auto& input_coord = input_coords[dim_ind];
         input_coord.reserve(n);
-        // The x_range may be given by input iterators, which can not be
-        // multi-passed.
         if (periodic) {
             // In periodic case, the knots are data points, shifted by half
             // of local grid size if spline order is odd.
 
-            auto iter = x_range.first;
+            auto iter = coords.begin();
             input_coord.push_back(*iter);
             for (size_type i = order + 1; i < order + n; ++i) {
                 coord_type present = *(++iter);
@@ -416,7 +417,7 @@ class InterpolationFunction {
             // In aperiodic case, the internal knots are moving average of
             // data points with windows size equal to spline order.
 
-            auto it = x_range.first;
+            auto it = coords.begin();
             auto l_knot = *it;
             // fill leftmost *order+1* identical knots
             for (size_type i = 0; i < order + 1; ++i) { xs[i] = l_knot; }
-- 
2.43.0


From 0039847341de42105616a68a3fd661d65d6f7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:41 +0000
Subject: [PATCH 18/22] fix: convert a range given in integers before
 subtracting its ends

The length of e.g. [-2000000000, 2000000000] overflowed int.
---
 src/include/Interpolation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index 6fd28d1..ded4cfa 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -326,8 +326,10 @@ class InterpolationFunction {
                             + (periodic ? 1 : 0)
 #endif
             ;
-        dx_[dim_ind] =
-            (x_range.second - x_range.first) / static_cast<coord_type>(n - 1);
+        // x_range may be given in integers, whose difference can overflow
+        dx_[dim_ind] = (static_cast<coord_type>(x_range.second) -
+                        static_cast<coord_type>(x_range.first)) /
+                       static_cast<coord_type>(n - 1);
 
         const size_t extra = periodic ? 2 * order : order + 1;
 
-- 
2.43.0


From 50c5a04dc76c5cfda1841d1afeacd5fcf989680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:41 +0000
Subject: [PATCH 19/22] fix: accept coordinates of every arithmetic type in
 eval_proxy and derivative

They were narrowed inside braces, which is ill-formed (clang rejects it) for
integers and for floating-point types wider than the coordinate type.
---
 src/include/Interpolation.hpp         | 11 +++++++----
 src/include/InterpolationTemplate.hpp |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/include/Interpolation.hpp b/src/include/Interpolation.hpp
index ded4cfa..35edd2d 100644
--- a/src/include/Interpolation.hpp
+++ b/src/include/Interpolation.hpp
@@ -199,9 +199,11 @@ class InterpolationFunction {
      */
     template <typename... CoordDeriOrderPair>
     val_type derivative(CoordDeriOrderPair... coord_deriOrder_pair) const {
-        return derivative(DimArray<coord_type>{coord_deriOrder_pair.first...},
-                          DimArray<size_type>{static_cast<size_type>(
-                              coord_deriOrder_pair.second)...});
+        return derivative(
+            DimArray<coord_type>{
+                static_cast<coord_type>(coord_deriOrder_pair.first)...},
+            DimArray<size_type>{
+                static_cast<size_type>(coord_deriOrder_pair.second)...});
     }
 
     /**
@@ -238,7 +240,8 @@ class InterpolationFunction {
     template <typename... CoordDeriOrderPair>
     val_type derivative_at(CoordDeriOrderPair... coord_deriOrder_pair) const {
         return derivative_at(
-            DimArray<coord_type>{coord_deriOrder_pair.first...},
+            DimArray<coord_type>{
+                static_cast<coord_type>(coord_deriOrder_pair.first)...},
             DimArray<size_type>{
                 static_cast<size_type>(coord_deriOrder_pair.second)...});
     }
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index d83a8c5..202c30f 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -154,7 +154,8 @@ class InterpolationFunctionTemplate {
     std::function<val_type(const function_type&)>
 #endif
     eval_proxy(Coords... x) const {
-        return base_.eval_proxy(DimArray<coord_type>{x...});
+        return base_.eval_proxy(
+            DimArray<coord_type>{static_cast<coord_type>(x)...});
     }
 
 #if __cplusplus >= 201402L
-- 
2.43.0


From 4d864f08ac106abf6298c52004fb8fd9efe3e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:41 +0000
Subject: [PATCH 20/22] fix: derivative of functions whose values can only be
 scaled and added

The weights of control points were stored and applied as values, so the
derivative of a vector valued function, unlike its value, did not compile.
---
 src/include/BSpline.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index cd05a80..956bf26 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -425,7 +425,7 @@ class BSpline {
         auto local_spline_val = local_control_points;
 #else
         Mesh<val_type, dim> local_control_points(order + 1);
-        auto local_spline_val = local_control_points;
+        Mesh<knot_type, dim> local_spline_val(order + 1);
 #endif
 
         // get local control points and basic spline values
@@ -510,7 +510,7 @@ class BSpline {
                     // Reduce backward to match pattern of local_spline_val.
                     for (diff_type j = k; j > 0; --j) {
                         iter[static_cast<diff_type>(order) + j - k] =
-                            static_cast<val_type>(k) *
+                            static_cast<knot_type>(k) *
                             (iter[static_cast<diff_type>(order) + j - k] -
                              iter[static_cast<diff_type>(order) + j - k - 1]) /
                             (knot_iters[d][j] - knot_iters[d][j - k]);
@@ -522,8 +522,8 @@ class BSpline {
         // combine spline value and control points to get spline derivative
         // value
         val_type v{};
-        for (auto s_it = local_spline_val.begin(),
-                  c_it = local_control_points.begin();
+        auto c_it = local_control_points.begin();
+        for (auto s_it = local_spline_val.begin();
              s_it != local_spline_val.end(); ++s_it, ++c_it) {
             v += (*s_it) * (*c_it);
         }
-- 
2.43.0


From 221ea349c2189655c5324b2c0e934b79c77c55de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:34 +0000
Subject: [PATCH 21/22] fix: BandLU::compute steals a matrix given as lvalue

The argument was forwarded as an rvalue whatever its category, so that a
matrix of the caller was emptied, and a const one did not compile.
---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 1edf781..5826454 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -34,7 +34,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
             std::is_same<util::remove_cvref_t<Mat_>, matrix_type>::value,
             "Matrix type mismatch");
         if (!is_computed_) {
-            lu_store_ = std::forward<matrix_type>(mat);
+            lu_store_ = std::forward<Mat_>(mat);
             this->cast().compute_impl();
             is_computed_ = true;
         }
-- 
2.43.0


From c7ba376293557c698925cfab09843314bced1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:45 +0000
Subject: [PATCH 22/22] fix: 1D template constructors reject a range with ends
 of different types

---
 src/include/InterpolationTemplate.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 202c30f..0eecfe3 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -89,9 +89,12 @@ class InterpolationFunctionTemplate {
     InterpolationFunctionTemplate(bool periodicity,
                                   size_type f_length,
                                   std::pair<C1, C2> x_range)
-        : InterpolationFunctionTemplate({periodicity},
-                                        MeshDim{f_length},
-                                        x_range) {
+        : InterpolationFunctionTemplate(
+              {periodicity},
+              MeshDim{f_length},
+              static_cast<std::pair<typename std::common_type<C1, C2>::type,
+                                    typename std::common_type<C1, C2>::type>>(
+                  x_range)) {
         static_assert(
             dim == size_type{1},
             "You can only use this overload of constructor in 1D case.");
-- 
2.43.0

