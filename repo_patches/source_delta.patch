From aa9c6607085cdff4e4fa156f3deb0bd48fa9cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 01/74] fix: aspect_ratio_iterator copies no longer refer to
 the factors of the iterator they were copied from

A copy (and with it the result of the postfix increment) kept an iterator into
the source's vector, which dangles as soon as the source advances. Also,
operator<= was true for any two iterators over the same number.
---
 .../algorithms/iter/aspect_ratio_iterator.hpp | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 778079b..739a55f 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -6,6 +6,7 @@
 #define FICTION_ASPECT_RATIO_ITERATOR_HPP
 
 #include <cmath>
+#include <cstddef>
 #include <cstdint>
 #include <iterator>
 #include <vector>
@@ -48,10 +49,10 @@ class aspect_ratio_iterator
      */
     aspect_ratio_iterator& operator++() noexcept
     {
-        ++it;
+        ++pos;
 
         // end of factors: compute next ones
-        if (it == factors.end())
+        if (pos == factors.size())
         {
             next();
         }
@@ -77,7 +78,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] AspectRatio operator*() const
     {
-        return *it;
+        return factors[pos];
     }
 
     [[nodiscard]] bool operator==(const uint64_t m) const noexcept
@@ -87,7 +88,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator==(const aspect_ratio_iterator& other) const
     {
-        return (num == other.num) && (*it == *(other.it));
+        return (num == other.num) && (**this == *other);
     }
 
     [[nodiscard]] bool operator!=(const uint64_t m) const noexcept
@@ -107,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && *it < *(other.it));
+        return (num < other.num) || (num == other.num && **this < *other);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -117,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && *it <= *(other.it));
+        return (num < other.num) || (num == other.num && **this <= *other);
     }
 
   private:
@@ -130,9 +131,10 @@ class aspect_ratio_iterator
      */
     std::vector<AspectRatio> factors;
     /**
-     * Iterator pointing to current factor.
+     * Position of the current factor within `factors`. An index rather than an iterator so that copies refer to their
+     * own factors.
      */
-    typename std::vector<AspectRatio>::iterator it;
+    std::size_t pos{};
 
     /**
      * Factorizes the current `num` into all possible factors \f$(x, y)\f$ with \f$x \cdot y = num\f$. The result is
@@ -158,7 +160,7 @@ class aspect_ratio_iterator
         }
 
         // let it point to the first element of the sequence
-        it = factors.begin();
+        pos = 0;
     }
     /**
      * Computes the next possible `num` where a factorization \f$(x, y)\f$ with \f$x \cdot y = num\f$ exists.
-- 
2.43.0


From 6dcd1083cb1cc677d2ef6a766d0c6b6e50366d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 02/74] fix: order gray_code_iterators by their position

The numeric order of two Gray codes is not their order of iteration, so that
a < b disagreed with b - a > 0 and with the comparison against a number.
---
 include/fiction/algorithms/iter/gray_code_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/iter/gray_code_iterator.hpp b/include/fiction/algorithms/iter/gray_code_iterator.hpp
index a60260a..b08608b 100644
--- a/include/fiction/algorithms/iter/gray_code_iterator.hpp
+++ b/include/fiction/algorithms/iter/gray_code_iterator.hpp
@@ -85,7 +85,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code < other.current_gray_code;
+        return current_iteration < other.current_iteration;
     }
     /**
      * Less-than or equal-to comparison operator. Compares the current iterator with another iterator.
@@ -95,7 +95,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<=(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code <= other.current_gray_code;
+        return current_iteration <= other.current_iteration;
     }
     /**
      * Subtraction operator to calculate the difference between two gray_code_iterators.
-- 
2.43.0


From 2ade06d7791759f4ebc67b4376dbcb2484b42a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 03/74] fix: data race on the random generator shared by
 parallel simulated annealing instances

---
 .../fiction/algorithms/optimization/simulated_annealing.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/optimization/simulated_annealing.hpp b/include/fiction/algorithms/optimization/simulated_annealing.hpp
index bc21ea8..aa0920d 100644
--- a/include/fiction/algorithms/optimization/simulated_annealing.hpp
+++ b/include/fiction/algorithms/optimization/simulated_annealing.hpp
@@ -85,9 +85,9 @@ simulated_annealing(const State& init_state, const double init_temp, const doubl
     assert(std::isfinite(init_temp) && "init_temp must be a finite number");
     assert(std::isfinite(final_temp) && "final_temp must be a finite number");
 
-    static std::mt19937_64 generator{std::random_device{}()};
+    thread_local std::mt19937_64 generator{std::random_device{}()};
 
-    static std::uniform_real_distribution<double> random_functor(0, 1);
+    thread_local std::uniform_real_distribution<double> random_functor(0, 1);
 
     auto current_cost  = cost(init_state);
     auto current_state = init_state;
-- 
2.43.0


From 0a015f178078c93fd747682d52dcb55b67d5d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 04/74] fix: binomial_coefficient no longer overflows when the
 result fits

---
 include/fiction/utils/math_utils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index 0a01af6..65b5088 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <numeric>
 #include <stdexcept>
 #include <type_traits>
 #include <vector>
@@ -65,14 +66,16 @@ template <std::integral T>
 
     uint64_t result = 1;
 
-    if (2 * k > n)
+    if (k > n - k)
     {
         k = n - k;
     }
 
     for (uint64_t i = 1; i <= k; i++)
     {
-        result = result * (n + 1 - i) / i;
+        // divide before multiplying so that no intermediate value exceeds the result
+        const auto g = std::gcd(result, i);
+        result       = (result / g) * ((n + 1 - i) / (i / g));
     }
 
     return result;
-- 
2.43.0


From 04a0dab65e04bd3aaf12ab336d50fa8b4b611b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 05/74] fix: round_to_n_decimal_places is the identity on
 integral numbers

The detour via double loses the low bits of 64-bit numbers and the conversion
back is undefined behavior at the end of the range.
---
 include/fiction/utils/math_utils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index 65b5088..0a2b10c 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -30,6 +30,11 @@ template <typename T>
     requires std::integral<T> || std::floating_point<T>
 [[nodiscard]] inline T round_to_n_decimal_places(const T number, const uint64_t n) noexcept
 {
+    if constexpr (std::is_integral_v<T>)
+    {
+        return number;  // integral numbers have no decimal places
+    }
+
     const auto factor = std::pow(10.0, static_cast<double>(n));
     return static_cast<T>(std::round(static_cast<double>(number) * factor) / factor);
 }
-- 
2.43.0


From 0ce07b7ab421c82ba1b898f63e2fbcfe0fd58515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 06/74] fix: find_first_two_of does not read past the end of
 empty ranges

---
 include/fiction/utils/stl_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/utils/stl_utils.hpp b/include/fiction/utils/stl_utils.hpp
index 8b94e88..dcc150c 100644
--- a/include/fiction/utils/stl_utils.hpp
+++ b/include/fiction/utils/stl_utils.hpp
@@ -39,6 +39,12 @@ namespace fiction
 template <std::random_access_iterator InputIt, std::random_access_iterator ForwardIt>
 InputIt find_first_two_of(InputIt first, InputIt last, ForwardIt s_first, ForwardIt s_last) noexcept
 {
+    // a range with fewer than two elements has no 2-element sub-sequence
+    if (last - first < 2 || s_last - s_first < 2)
+    {
+        return last;
+    }
+
     for (; first != last - 1; ++first)
     {
         for (ForwardIt it = s_first; it != s_last - 1; ++it)
-- 
2.43.0


From d52c30c0c495b08714d5b2b9d7602b81f7a5ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 07/74] fix: the decayed and_xor gate with a constant-1 input
 is a NAND

---
 include/fiction/technology/technology_mapping_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/technology_mapping_library.hpp b/include/fiction/technology/technology_mapping_library.hpp
index 3fe8145..de55df5 100644
--- a/include/fiction/technology/technology_mapping_library.hpp
+++ b/include/fiction/technology/technology_mapping_library.hpp
@@ -91,7 +91,7 @@ inline constexpr const char* DECAY_MUX = "GATE  d1_mux  1 O=a*b;           PIN *
 
 inline constexpr const char* GATE_AND_XOR  = "GATE  and_xor     1 O=a^(b*c);  PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n";
 inline constexpr const char* DECAY_AND_XOR = "GATE  d1_and_xor  1 O=a*b;      PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n"
-                                             "GATE  d2_and_xor  1 O=!a*b;     PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n"
+                                             "GATE  d2_and_xor  1 O=!(a*b);  PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n"
                                              "GATE  d3_and_xor  1 O=a^b;      PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n";
 
 }  // namespace fiction
-- 
2.43.0


From 50c1bf7baf1e70618ff622fcffc55475949f464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 08/74] fix: LMXRLF graph coloring terminates on graphs such as
 stars

---
 vendors/graph-coloring/Source/lmxrlf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vendors/graph-coloring/Source/lmxrlf.cpp b/vendors/graph-coloring/Source/lmxrlf.cpp
index e7e350b..789fadd 100644
--- a/vendors/graph-coloring/Source/lmxrlf.cpp
+++ b/vendors/graph-coloring/Source/lmxrlf.cpp
@@ -198,7 +198,8 @@ vector<string> GraphColoring::Lmxrlf::uncolored_neighbor(const vector<string>& n
                 initf = 0;
             }
         }
-        if (!initf)
+        // vertices that are already colored cannot join the set: it would no longer make progress
+        if (!initf && this->graph_colors[i.first] == -1)
         {
             int count = 0;
             for (auto& j : i.second)
-- 
2.43.0


From 1f452edf154fde652221e7d9d5378cad4f5cf137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 09/74] fix: clone the clocking scheme of a clocked_layout
 instead of sharing it

---
 include/fiction/layouts/clocked_layout.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/clocked_layout.hpp b/include/fiction/layouts/clocked_layout.hpp
index ff9b406..92c421d 100644
--- a/include/fiction/layouts/clocked_layout.hpp
+++ b/include/fiction/layouts/clocked_layout.hpp
@@ -113,7 +113,8 @@ class clocked_layout : public CoordinateLayout
     [[nodiscard]] clocked_layout clone() const noexcept
     {
         auto copy = clocked_layout(CoordinateLayout::clone());
-        copy.strg = std::make_shared<clocked_layout_storage>(*strg);
+        // the storage only holds a pointer to the clocking scheme; copy the scheme itself
+        copy.strg = std::make_shared<clocked_layout_storage>(*strg->clocking);
 
         return copy;
     }
-- 
2.43.0


From 31d4f5587eca22754a44ec15c532fede5b908734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 10/74] fix: keep the requested number of clocks in
 twoddwave_hex_clocking's fallback

---
 include/fiction/layouts/clocking_scheme.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/layouts/clocking_scheme.hpp b/include/fiction/layouts/clocking_scheme.hpp
index 90c5296..cc34041 100644
--- a/include/fiction/layouts/clocking_scheme.hpp
+++ b/include/fiction/layouts/clocking_scheme.hpp
@@ -532,11 +532,11 @@ static auto twoddwave_hex_clocking(const num_clks& n = num_clks::FOUR) noexcept
         }
 
         // not a supported hexagonal orientation; fall back to regular 2DDWave clocking
-        return twoddwave_clocking<Lyt>();
+        return twoddwave_clocking<Lyt>(n);
     }
     else  // not a hexagonal layout; fall back to regular 2DDWave clocking
     {
-        return twoddwave_clocking<Lyt>();
+        return twoddwave_clocking<Lyt>(n);
     }
 }
 /**
-- 
2.43.0


From e0530d96ca39d8f16e656304ed129f8dd6608053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 11/74] fix: make gate_level_layout::compute usable with
 Boolean values

---
 include/fiction/layouts/gate_level_layout.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 819d04b..502a70e 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -1275,14 +1275,14 @@ class gate_level_layout : public ClockedLayout
     template <typename Iterator>
     mockturtle::iterates_over_t<Iterator, bool> compute(const node n, Iterator begin, Iterator end) const
     {
+        // the first fanin is the least significant variable
         uint32_t index{0};
-        while (begin != end)
+        for (uint32_t i = 0u; begin != end; ++begin, ++i)
         {
-            index <<= 1u;
-            index ^= *begin++ ? 1 : 0;
+            index |= (*begin ? 1u : 0u) << i;
         }
 
-        return kitty::get_bit(strg->data.cache[strg->nodes[n].data[1].h1], index);
+        return kitty::get_bit(strg->data.fn_cache[strg->nodes[n].data[1].h1], index) != 0;
     }
 
     template <typename Iterator>
-- 
2.43.0


From 221f272335d072f591f5447c7c938b2bf4dfc755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 12/74] fix: do not mark children as dead when
 gate_level_layout::move_node releases them

---
 include/fiction/layouts/gate_level_layout.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 502a70e..7f302b6 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -735,8 +735,17 @@ class gate_level_layout : public ClockedLayout
         const auto old_t = get_tile(n);
         // n's children
         auto& children = strg->nodes[n].children;
-        // decrease ref-count of children
-        std::ranges::for_each(children, [this](const auto& c) { strg->nodes[get_node(c.index)].data[0].h1--; });
+        // decrease ref-count of children; a child's tile might have been cleared or taken by another node in the meantime
+        // whose ref-count must not underflow into the bit that marks dead nodes
+        std::ranges::for_each(children,
+                              [this](const auto& c)
+                              {
+                                  if (auto& child = strg->nodes[get_node(c.index)];
+                                      (child.data[0].h1 & UINT32_C(0x7fffffff)) != 0)
+                                  {
+                                      child.data[0].h1--;
+                                  }
+                              });
         // clear n's children
         children.clear();
 
-- 
2.43.0


From f29cfacd29156840a8714ab79d6cfe716e44184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 13/74] fix: initialize constants and gate functions when a
 gate_level_layout is created from a clocked layout

---
 include/fiction/layouts/gate_level_layout.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 7f302b6..612e395 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -220,6 +220,8 @@ class gate_level_layout : public ClockedLayout
             evnts{std::make_shared<typename event_storage::element_type>()}
     {
         static_assert(is_clocked_layout_v<ClockedLayout>, "ClockedLayout is not a clocked layout type");
+
+        initialize_truth_table_cache();
     }
     /**
      * Clones the layout returning a deep copy.
-- 
2.43.0


From 7831f1b2caa7c96ebf68a78e7d4bf3106e1807f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 14/74] fix: keep gate_level_layout's crossing count
 independent of the order in which tiles are occupied and cleared

---
 include/fiction/layouts/gate_level_layout.hpp | 49 ++++++++++---------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 612e395..5c66a05 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -811,24 +811,14 @@ class gate_level_layout : public ClockedLayout
 
             if (!t.is_dead())
             {
+                // decrease crossing count
+                strg->data.num_crossings -= num_crossings_at(t, n);
+
                 // decrease wire count
                 if (is_wire(n))
                 {
                     strg->data.num_wires--;
 
-                    // decrease crossing count
-                    if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
-                    if (ClockedLayout::is_ground_layer(t) &&
-                        ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                        !is_empty_tile(ClockedLayout::above(t)))
-                    {
-                        strg->data.num_crossings--;
-                    }
-
                     // find PO entry and remove it if present
                     if (const auto po_it = std::ranges::find_if(strg->outputs, [this, &n](const auto& p)
                                                                 { return this->get_node(p.index) == n; });
@@ -1758,6 +1748,25 @@ class gate_level_layout : public ClockedLayout
         create_and_cache(lit_maj, 3);
     }
 
+    /**
+     * Counts the crossings that node `n` on tile `t` takes part in, i.e., the occupied tiles directly above and below `t`
+     * where at least one of the two nodes is a wire segment.
+     */
+    [[nodiscard]] uint32_t num_crossings_at(const tile& t, const node n) const noexcept
+    {
+        uint32_t crossings{0};
+
+        for (const auto& other : {ClockedLayout::above(t), ClockedLayout::below(t)})
+        {
+            if (other != t && !is_empty_tile(other) && (is_wire(n) || is_wire_tile(other)))
+            {
+                ++crossings;
+            }
+        }
+
+        return crossings;
+    }
+
     void assign_node(const tile& t, const node n)
     {
         if (!t.is_dead())
@@ -1772,22 +1781,14 @@ class gate_level_layout : public ClockedLayout
             if (is_wire(n))
             {
                 strg->data.num_wires++;
-
-                if (ClockedLayout::is_crossing_layer(t) && !is_empty_tile(ClockedLayout::below(t)))
-                {
-                    strg->data.num_crossings++;
-                }
-
-                if (ClockedLayout::is_ground_layer(t) && ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
-                    !is_empty_tile(ClockedLayout::above(t)))
-                {
-                    strg->data.num_crossings++;
-                }
             }
             else  // is gate
             {
                 strg->data.num_gates++;
             }
+
+            // keep track of number of crossings
+            strg->data.num_crossings += num_crossings_at(t, n);
         }
     }
 
-- 
2.43.0


From aaab4a5cd564e5d99300982f43d840cf03de3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 15/74] fix: literals of the less-or-equal and greater-or-equal
 truth tables

---
 include/fiction/utils/truth_table_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/truth_table_utils.hpp b/include/fiction/utils/truth_table_utils.hpp
index 1ec2733..406df2a 100644
--- a/include/fiction/utils/truth_table_utils.hpp
+++ b/include/fiction/utils/truth_table_utils.hpp
@@ -166,7 +166,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_le_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x11;
+    constexpr const uint64_t lit = 0xb;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
@@ -180,7 +180,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_ge_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x13;
+    constexpr const uint64_t lit = 0xd;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
-- 
2.43.0


From 58ad87bde1e7ab81d7df177e7647665c4f22b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 16/74] fix: preserve the functions of comparison gates when
 placing them

---
 include/fiction/utils/placement_utils.hpp | 30 ++---------------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/include/fiction/utils/placement_utils.hpp b/include/fiction/utils/placement_utils.hpp
index 9661178..4fb01f4 100644
--- a/include/fiction/utils/placement_utils.hpp
+++ b/include/fiction/utils/placement_utils.hpp
@@ -203,34 +203,8 @@ place(Lyt& lyt, const tile<Lyt>& t, const Ntk& ntk, const mockturtle::node<Ntk>&
             return lyt.create_nor(a, b, t);
         }
     }
-    if constexpr (fiction::has_is_lt_v<Ntk>)
-    {
-        if (ntk.is_lt(n))
-        {
-            return lyt.create_lt(a, b, t);
-        }
-    }
-    if constexpr (fiction::has_is_le_v<Ntk>)
-    {
-        if (ntk.is_le(n))
-        {
-            return lyt.create_le(a, b, t);
-        }
-    }
-    if constexpr (fiction::has_is_gt_v<Ntk>)
-    {
-        if (ntk.is_gt(n))
-        {
-            return lyt.create_gt(a, b, t);
-        }
-    }
-    if constexpr (fiction::has_is_ge_v<Ntk>)
-    {
-        if (ntk.is_ge(n))
-        {
-            return lyt.create_ge(a, b, t);
-        }
-    }
+    // LT, LE, GT, and GE gates are placed by their function (see below) because networks and layouts do not agree on which
+    // of the two operands their names refer to
     if constexpr (mockturtle::has_is_maj_v<Ntk>)
     {
         if (ntk.is_maj(n))
-- 
2.43.0


From a0d95f3c1952a41c84b3410ecd099ce9aa5210c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 17/74] fix: keep primary outputs that are placed or moved onto
 occupied wire tiles of a gate_level_layout

---
 include/fiction/layouts/gate_level_layout.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 5c66a05..8190e27 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -274,9 +274,11 @@ class gate_level_layout : public ClockedLayout
         const auto n = static_cast<node>(strg->nodes.size());
         strg->nodes.emplace_back();     // empty node data
         strg->nodes[n].data[1].h1 = 2;  // assign identity function
+        // a node that currently occupies t must be removed before the output is registered, because removing a wire segment
+        // also removes an output that is registered at its tile
+        assign_node(t, n);
         strg->outputs.emplace_back(static_cast<signal>(t));
         strg->data.node_names[n] = name.empty() ? fmt::format("po{}", num_pos()) : name;
-        assign_node(t, n);
 
         /* increase ref-count to child */
         strg->nodes[get_node(s)].data[0].h1++;
@@ -756,6 +758,8 @@ class gate_level_layout : public ClockedLayout
         {
             if (!t.is_dead())
             {
+                // remove a node that currently occupies t together with its PO entry
+                clear_tile(t);
                 // if n lived on a tile that was marked as PO, update it with the new tile t
                 std::ranges::replace(strg->outputs, static_cast<signal>(old_t), static_cast<signal>(t));
             }
-- 
2.43.0


From c1be01d2171377ac000ddc488641e55369badeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 18/74] fix: keep the order of the operands of non-commutative
 gates in orthogonal physical design

---
 .../algorithms/physical_design/orthogonal.hpp | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index 1cea472..878da42 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -330,15 +330,25 @@ mockturtle::signal<Lyt> wire_south(Lyt& lyt, const tile<Lyt>& src, const tile<Ly
 template <typename Lyt, typename Ntk>
 mockturtle::signal<Lyt> connect_and_place(Lyt& lyt, const tile<Lyt>& t, const Ntk& ntk, const mockturtle::node<Ntk>& n,
                                           tile<Lyt> pre1_t, tile<Lyt> pre2_t,
-                                          const std::optional<bool>& c = std::nullopt)
+                                          const std::optional<bool>& c = std::nullopt, bool swapped = false)
 {
     // make sure pre1_t is the northwards tile and pre2_t is the westwards one
     if (pre2_t < pre1_t)
     {
         std::swap(pre1_t, pre2_t);
+        swapped = !swapped;
     }
 
-    return place(lyt, t, ntk, n, wire_south(lyt, pre1_t, t), wire_east(lyt, pre2_t, t), c);
+    auto a = wire_south(lyt, pre1_t, t);
+    auto b = wire_east(lyt, pre2_t, t);
+
+    // restore the order of the operands because n's function might not be commutative
+    if (swapped)
+    {
+        std::swap(a, b);
+    }
+
+    return place(lyt, t, ntk, n, a, b, c);
 }
 
 template <typename Lyt, typename Ntk>
@@ -564,6 +574,9 @@ class orthogonal_impl
 
                         tile<Lyt> t{};
 
+                        // keeps track of whether pre1_t and pre2_t are in reverse order of n's operands
+                        bool swapped = false;
+
                         // n is colored east
                         if (const auto clr = ctn.color_ntk.color(n); clr == ctn.color_east)
                         {
@@ -571,6 +584,7 @@ class orthogonal_impl
                             if (pre2_t.y < pre1_t.y)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = !swapped;
                             }
 
                             // use larger y position of predecessors
@@ -588,6 +602,7 @@ class orthogonal_impl
                             if (pre2_t.x > pre1_t.x)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = !swapped;
                             }
 
                             // use larger x position of predecessors
@@ -606,6 +621,7 @@ class orthogonal_impl
                                 !layout.is_empty_tile(layout.south(pre2_t)))
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = !swapped;
                             }
 
                             t = latest_pos;
@@ -618,7 +634,8 @@ class orthogonal_impl
                             ++latest_pos.y;
                         }
 
-                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin);
+                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin,
+                                                        swapped);
                     }
 
                     if (ctn.color_ntk.is_po(n) &&
-- 
2.43.0


From 283afe42d62a70d496ca80db62e96ac982aa0fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 19/74] fix: convert node functions to network types that do
 not support arbitrary functions

---
 .../network_conversion.hpp                    | 56 +++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/include/fiction/algorithms/network_transformation/network_conversion.hpp b/include/fiction/algorithms/network_transformation/network_conversion.hpp
index e2e54b7..2ea375d 100644
--- a/include/fiction/algorithms/network_transformation/network_conversion.hpp
+++ b/include/fiction/algorithms/network_transformation/network_conversion.hpp
@@ -8,12 +8,14 @@
 #include "fiction/traits.hpp"
 #include "fiction/utils/name_utils.hpp"
 
+#include <kitty/bit_operations.hpp>
 #include <mockturtle/algorithms/cleanup.hpp>
 #include <mockturtle/traits.hpp>
 #include <mockturtle/utils/node_map.hpp>
 #include <mockturtle/views/topo_view.hpp>
 
 #include <cassert>
+#include <cstddef>
 #include <cstdint>
 #include <type_traits>
 #include <vector>
@@ -160,6 +162,12 @@ class convert_network_impl<NtkDest, NtkSrc, false>
                     old2new[g] = ntk_dest.create_node(children, ntk.node_function(g));
                     return true;
                 }
+                else if constexpr (mockturtle::has_node_function_v<TopoNtkSrc>)
+                {
+                    // NtkDest does not support arbitrary node functions, i.e., it has to be decomposed
+                    old2new[g] = decompose(ntk_dest, children, ntk.node_function(g));
+                    return true;
+                }
 
                 return true;
             });
@@ -182,6 +190,54 @@ class convert_network_impl<NtkDest, NtkSrc, false>
   private:
     using TopoNtkSrc = mockturtle::topo_view<NtkSrc>;
     TopoNtkSrc ntk;
+
+    /**
+     * Realizes a function with the gates that any network type supports via Shannon decomposition.
+     *
+     * @param ntk_dest Network to create the gates in.
+     * @param children Operands of the function.
+     * @param function Function to realize.
+     * @param num_vars Number of leading operands that are still to be decomposed.
+     * @param minterm Assignment to the operands that have been decomposed already.
+     * @return Signal that realizes the function in `ntk_dest`.
+     */
+    template <typename TT>
+    [[nodiscard]] static typename NtkDest::signal
+    decompose(NtkDest& ntk_dest, const std::vector<typename NtkDest::signal>& children, const TT& function,
+              const std::size_t num_vars, const uint64_t minterm)
+    {
+        if (num_vars == 0)
+        {
+            return ntk_dest.get_constant(kitty::get_bit(function, minterm) != 0);
+        }
+
+        const auto var = num_vars - 1;
+
+        const auto neg = decompose(ntk_dest, children, function, var, minterm);
+        const auto pos = decompose(ntk_dest, children, function, var, minterm | (uint64_t{1} << var));
+
+        if (neg == pos)
+        {
+            return neg;
+        }
+
+        return ntk_dest.create_or(ntk_dest.create_and(children[var], pos),
+                                  ntk_dest.create_and(ntk_dest.create_not(children[var]), neg));
+    }
+    /**
+     * Realizes a function with the gates that any network type supports via Shannon decomposition.
+     *
+     * @param ntk_dest Network to create the gates in.
+     * @param children Operands of the function.
+     * @param function Function to realize.
+     * @return Signal that realizes the function in `ntk_dest`.
+     */
+    template <typename TT>
+    [[nodiscard]] static typename NtkDest::signal
+    decompose(NtkDest& ntk_dest, const std::vector<typename NtkDest::signal>& children, const TT& function)
+    {
+        return decompose(ntk_dest, children, function, children.size(), 0);
+    }
 };
 }  // namespace detail
 
-- 
2.43.0


From d84be41cbe0e94fc84c93fa76a58852f71ea0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 20/74] fix: fanout_substitution exceeded the degree of fanouts
 that drive several operands of the same node

---
 .../network_transformation/fanout_substitution.hpp  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
index d9b2ede..703b4af 100644
--- a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
+++ b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
@@ -145,7 +145,7 @@ class fanout_substitution_impl
                                            // constants do not need fanout trees
                                            if (!ntk_topo.is_constant(fn))
                                            {
-                                               child = get_fanout(substituted, fn, child);
+                                               child = get_fanout(substituted, fn, child, children);
                                            }
 
                                            children.push_back(child);
@@ -255,9 +255,14 @@ class fanout_substitution_impl
     }
 
     mockturtle::signal<NtkDest> get_fanout(const NtkDest& substituted, const mockturtle::node<NtkSrc>& n,
-                                           mockturtle::signal<NtkDest>& child)
+                                           mockturtle::signal<NtkDest>&                    child,
+                                           const std::vector<mockturtle::signal<NtkDest>>& pending = {})
     {
-        if (substituted.fanout_size(substituted.get_node(child)) >= ps.threshold)
+        // fanout size including those fanouts that have been assigned to the node under construction already
+        const auto num_fanouts = [&substituted, &pending](const auto& s) noexcept
+        { return substituted.fanout_size(substituted.get_node(s)) + std::ranges::count(pending, s); };
+
+        if (num_fanouts(child) >= ps.threshold)
         {
             if (auto fanouts = available_fanouts[n]; !fanouts.empty())
             {
@@ -265,7 +270,7 @@ class fanout_substitution_impl
                 while (true)
                 {
                     child = fanouts.front();
-                    if (substituted.fanout_size(substituted.get_node(child)) >= ps.degree)
+                    if (num_fanouts(child) >= ps.degree)
                     {
                         fanouts.pop();
                     }
-- 
2.43.0


From 50cf5494349728b218a41924761ad9fea6e277ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 21/74] fix: primary outputs that are driven by virtual PIs
 became constant when the virtual PIs were deleted

---
 .../network_transformation/delete_virtual_pis.hpp        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
index 9dd9dcf..45b3586 100644
--- a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
+++ b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
@@ -127,7 +127,14 @@ class delete_virtual_pis_impl
         ntk.foreach_po(
             [this, &ntk_dest, &old2new](const auto& po)
             {
-                const auto tgt_signal = old2new[ntk.get_node(po)];
+                auto po_node = ntk.get_node(po);
+
+                if (ntk.is_virtual_pi(po_node))
+                {
+                    po_node = ntk.get_real_pi(po_node);
+                }
+
+                const auto tgt_signal = old2new[po_node];
                 const auto tgt_po     = ntk.is_complemented(po) ? ntk_dest.create_not(tgt_signal) : tgt_signal;
 
                 ntk_dest.create_po(tgt_po);
-- 
2.43.0


From 6638f2caf2e8a18f85d924d8daec25a13a34b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 22/74] fix: count primary outputs in the fanout sizes of the
 buffers created by substitute_po_signals

---
 include/fiction/networks/technology_network.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/networks/technology_network.hpp b/include/fiction/networks/technology_network.hpp
index 7f75b10..edd3a72 100644
--- a/include/fiction/networks/technology_network.hpp
+++ b/include/fiction/networks/technology_network.hpp
@@ -391,6 +391,8 @@ class technology_network : public mockturtle::klut_network
                     _storage->nodes[po].data[0].h1--;
                     // create a new buf node
                     const auto b = create_buf(po);
+                    // increase ref-count
+                    _storage->nodes[b].data[0].h1++;
                     // bend PO signal to point to the new node
                     _storage->outputs[index] = b;
                 }
-- 
2.43.0


From 4e2c11450f84c0714838acd3fda2b5cd55faf25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 23/74] fix: bfs_topo_view omitted nodes that use the same
 fanin multiple times

---
 include/fiction/networks/views/bfs_topo_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/networks/views/bfs_topo_view.hpp b/include/fiction/networks/views/bfs_topo_view.hpp
index ced2421..aafaf51 100644
--- a/include/fiction/networks/views/bfs_topo_view.hpp
+++ b/include/fiction/networks/views/bfs_topo_view.hpp
@@ -209,8 +209,8 @@ class bfs_topo_view<Ntk, false> : public mockturtle::immutable_view<Ntk>
         fanout_ntk.foreach_node(
             [&](auto n)
             {
-                unvisited_fanin_count[n] = 0;
-                fanout_ntk.foreach_fanin(n, [&](const auto& /*f*/) { ++unvisited_fanin_count[n]; });
+                // a node may be listed only once as a fanout even if it uses the same fanin multiple times
+                fanout_ntk.foreach_fanout(n, [&](const auto& fo) { ++unvisited_fanin_count[fo]; });
             });
 
         fanout_ntk.foreach_ci(
-- 
2.43.0


From d10a14b3e548a5e7c301dba12b2899e8f6b52a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 24/74] fix: place primary outputs of orthogonal layouts in the
 row that is reserved for them

---
 .../algorithms/physical_design/orthogonal.hpp      | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index 878da42..74c90cd 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -387,15 +387,18 @@ mockturtle::signal<Lyt> connect_and_place(Lyt& lyt, const tile<Lyt>& t, const Nt
  * @param po_counter Counter for POs.
  * @param node2pos Mapping from network nodes to layout signals, i.e., a pointer to their position in the layout. The
  * map is used to fetch location of the fanins. The `mockturtle::node_map` is not updated by this function.
+ * @param node2po_row Mapping from network nodes that have a PO which cannot be placed in their own row to the row that
+ * is reserved for this PO.
  */
 template <typename Ntk, typename Lyt>
 void place_outputs(Lyt& layout, const coloring_container<Ntk>& ctn, uint32_t po_counter,
-                   const mockturtle::node_map<mockturtle::signal<Lyt>, decltype(ctn.color_ntk)>& node2pos)
+                   const mockturtle::node_map<mockturtle::signal<Lyt>, decltype(ctn.color_ntk)>& node2pos,
+                   const mockturtle::node_map<uint32_t, decltype(ctn.color_ntk)>&                node2po_row)
 {
     std::vector<mockturtle::node<Ntk>> output_nodes{};
 
     ctn.color_ntk.foreach_po(
-        [&po_counter, &output_nodes, &node2pos, &ctn, &layout](const auto& po)
+        [&po_counter, &output_nodes, &node2pos, &node2po_row, &ctn, &layout](const auto& po)
         {
             if (!ctn.color_ntk.is_constant(po))
             {
@@ -407,7 +410,8 @@ void place_outputs(Lyt& layout, const coloring_container<Ntk>& ctn, uint32_t po_
                 // determine PO orientation
                 if (!is_eastern_po_orientation_available(ctn, po) || multi_output_node)
                 {
-                    po_tile = static_cast<tile<Lyt>>(wire_south(layout, po_tile, {po_tile.x, po_tile.y + 2}));
+                    // the reserved row is not necessarily the one right below the node
+                    po_tile = static_cast<tile<Lyt>>(wire_south(layout, po_tile, {po_tile.x, node2po_row[po] + 1}));
                 }
 
                 // check if PO position is located at the border
@@ -475,6 +479,7 @@ class orthogonal_impl
         const auto ctn = east_south_edge_coloring(ntk);
 
         mockturtle::node_map<mockturtle::signal<Lyt>, decltype(ctn.color_ntk)> node2pos{ctn.color_ntk};
+        mockturtle::node_map<uint32_t, decltype(ctn.color_ntk)>                node2po_row{ctn.color_ntk};
 
         // find multi-output nodes
         std::vector<mockturtle::node<decltype(ntk)>> output_nodes{};
@@ -642,6 +647,7 @@ class orthogonal_impl
                         (!is_eastern_po_orientation_available(ctn, n) ||
                          std::ranges::find(multi_output_nodes, n) != multi_output_nodes.cend()))
                     {
+                        node2po_row[n] = static_cast<uint32_t>(latest_pos.y);
                         ++latest_pos.y;
                     }
                 }
@@ -653,7 +659,7 @@ class orthogonal_impl
             });
 
         // place outputs after the main algorithm to handle possible multi-output or unordered nodes
-        place_outputs(layout, ctn, po_counter, node2pos);
+        place_outputs(layout, ctn, po_counter, node2pos, node2po_row);
 
         // restore possibly set signal names
         restore_names(ctn.color_ntk, layout, node2pos);
-- 
2.43.0


From e01f72ac133feb5bd54d40222a5f1d883bd92b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 25/74] fix: preserve the operand order of non-commutative
 gates in post-layout optimization

---
 .../post_layout_optimization.hpp              | 99 ++++++++++++-------
 1 file changed, 65 insertions(+), 34 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index a8719d6..f7fef0b 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -640,6 +640,9 @@ class post_layout_optimization_impl
                 const auto incoming_tile = lyt.incoming_data_flow(above).front();
                 const auto outgoing_tile = lyt.outgoing_data_flow(above).front();
 
+                // remember the operand order of the outgoing tile
+                const auto is_first_operand = lyt.incoming_data_flow(outgoing_tile).front() == above;
+
                 // move wire from z=1 to z=0
                 lyt.move_node(lyt.get_node(above), ground, {lyt.make_signal(lyt.get_node(incoming_tile))});
 
@@ -651,8 +654,14 @@ class post_layout_optimization_impl
                     if (std::ranges::find(deleted_coords, front) == deleted_coords.cend() ||
                         std::ranges::find(moved_tiles, front) != moved_tiles.cend())
                     {
-                        lyt.move_node(lyt.get_node(outgoing_tile), outgoing_tile,
-                                      {lyt.make_signal(lyt.get_node(ground)), lyt.make_signal(lyt.get_node(front))});
+                        std::vector<mockturtle::signal<ObstrLyt>> signals{lyt.make_signal(lyt.get_node(ground)),
+                                                                          lyt.make_signal(lyt.get_node(front))};
+                        if (!is_first_operand)
+                        {
+                            std::swap(signals.front(), signals.back());
+                        }
+
+                        lyt.move_node(lyt.get_node(outgoing_tile), outgoing_tile, signals);
                     }
                 }
                 // otherwise, the wire is the only incoming signal
@@ -860,6 +869,39 @@ class post_layout_optimization_impl
         timeout_limit_reached = (elapsed_ms >= ps.timeout);
         return timeout_limit_reached ? 0 : ps.timeout - elapsed_ms;
     }
+    /**
+     * Updates the children of the fanouts of a (re-)routed gate. Since routing appends the new connection to the
+     * children of a fanout, the original operand order is restored.
+     *
+     * @param lyt Obstructed gate-level layout.
+     * @param fanouts Fanout tiles of the gate.
+     * @param is_first_operand Flags that indicate for each fanout whether the gate was its first operand.
+     */
+    void update_children_of_fanouts(ObstrLyt& lyt, const std::vector<tile<Lyt>>& fanouts,
+                                    const std::vector<bool>& is_first_operand) noexcept
+    {
+        for (std::size_t k = 0; k < fanouts.size(); ++k)
+        {
+            const auto& fanout = fanouts[k];
+
+            std::vector<mockturtle::signal<ObstrLyt>> signals{};
+            signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
+
+            lyt.foreach_fanin(lyt.get_node(fanout),
+                              [&lyt, &signals](const auto& i)
+                              {
+                                  auto fout = static_cast<tile<ObstrLyt>>(i);
+                                  signals.push_back(lyt.make_signal(lyt.get_node(fout)));
+                              });
+
+            if (signals.size() == 2 && is_first_operand[k])
+            {
+                std::swap(signals.front(), signals.back());
+            }
+
+            lyt.move_node(lyt.get_node(fanout), fanout, signals);
+        }
+    }
     /**
      * Attempts to relocate a gate to a new position within the layout and updates routing connections accordingly.
      *
@@ -870,6 +912,7 @@ class post_layout_optimization_impl
      * upon successful relocation.
      * @param fanins               Vector containing the tile positions of all fan-in connections to the gate.
      * @param fanouts              Vector containing the tile positions of all fan-out connections from the gate.
+     * @param is_first_operand     Flags that indicate for each fan-out whether the gate was its first operand.
      * @param moved_gate           Reference to a boolean flag that will be set to `true` if the gate is successfully
      * moved.
      * @param old_pos              The original tile position of the gate before the relocation attempt.
@@ -879,7 +922,8 @@ class post_layout_optimization_impl
      */
     bool check_new_position(ObstrLyt& lyt, const tile<ObstrLyt>& new_pos, uint64_t& num_gate_relocations,
                             tile<ObstrLyt>& current_pos, const std::vector<tile<Lyt>>& fanins,
-                            const std::vector<tile<Lyt>>& fanouts, bool& moved_gate,
+                            const std::vector<tile<Lyt>>& fanouts, const std::vector<bool>& is_first_operand,
+                            bool& moved_gate,
                             const tile<ObstrLyt>& old_pos) noexcept
     {
         if (lyt.is_empty_tile(new_pos) && lyt.is_empty_tile({new_pos.x, new_pos.y, 1}))
@@ -952,20 +996,7 @@ class post_layout_optimization_impl
                 }
 
                 // update children of fanouts
-                for (const auto& fanout : fanouts)
-                {
-                    std::vector<mockturtle::signal<ObstrLyt>> signals{};
-                    signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
-
-                    lyt.foreach_fanin(lyt.get_node(fanout),
-                                      [&lyt, &signals](const auto& i)
-                                      {
-                                          auto fout = static_cast<tile<ObstrLyt>>(i);
-                                          signals.push_back(lyt.make_signal(lyt.get_node(fout)));
-                                      });
-
-                    lyt.move_node(lyt.get_node(fanout), fanout, signals);
-                }
+                update_children_of_fanouts(lyt, fanouts, is_first_operand);
 
                 if (new_pos == old_pos)
                 {
@@ -1004,13 +1035,15 @@ class post_layout_optimization_impl
      * @param current_pos Current position of the gate after relocation attempt.
      * @param old_pos Original position of the gate before relocation attempt.
      * @param fanouts Vector of fanout tiles connected to the gate.
+     * @param is_first_operand Flags that indicate for each fanout whether the gate was its first operand.
      */
     void restore_original_wiring(ObstrLyt& lyt, const layout_coordinate_path<ObstrLyt> old_path_from_fanin_1_to_gate,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_fanin_2_to_gate,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_gate_to_fanout_1,
                                  const layout_coordinate_path<ObstrLyt> old_path_from_gate_to_fanout_2,
                                  const tile<ObstrLyt>& current_pos, const tile<ObstrLyt>& old_pos,
-                                 const std::vector<tile<Lyt>> fanouts) noexcept
+                                 const std::vector<tile<Lyt>>  fanouts,
+                                 const std::vector<bool>&      is_first_operand) noexcept
     {
         lyt.move_node(lyt.get_node(current_pos), old_pos, {});
 
@@ -1047,20 +1080,7 @@ class post_layout_optimization_impl
         lyt.move_node(lyt.get_node(old_pos), old_pos, signals);
 
         // update children of fanouts
-        for (const auto& fanout : fanouts)
-        {
-            std::vector<mockturtle::signal<ObstrLyt>> fout_signals{};
-            fout_signals.reserve(lyt.fanin_size(lyt.get_node(fanout)));
-
-            lyt.foreach_fanin(lyt.get_node(fanout),
-                              [&lyt, &fout_signals](const auto& i)
-                              {
-                                  auto fout = static_cast<tile<ObstrLyt>>(i);
-                                  fout_signals.push_back(lyt.make_signal(lyt.get_node(fout)));
-                              });
-
-            lyt.move_node(lyt.get_node(fanout), fanout, fout_signals);
-        }
+        update_children_of_fanouts(lyt, fanouts, is_first_operand);
     }
     /**
      * Utility function that moves gates to new coordinates and checks if routing is possible.
@@ -1111,6 +1131,17 @@ class post_layout_optimization_impl
             }
         }
 
+        // remember the operand order of the fanouts
+        std::vector<bool> is_first_operand{};
+        is_first_operand.reserve(fanouts.size());
+        for (const auto& path : {old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2})
+        {
+            if (!path.empty())
+            {
+                is_first_operand.push_back(lyt.incoming_data_flow(path.back()).front() == *(path.cend() - 2));
+            }
+        }
+
         // remove wiring
         for (const auto& tile : to_clear)
         {
@@ -1175,7 +1206,7 @@ class post_layout_optimization_impl
                 {
                     new_pos = tile<ObstrLyt>{x, y};
                     if (!check_new_position(lyt, new_pos, num_gate_relocations, current_pos, fanins, fanouts,
-                                            moved_gate, old_pos))
+                                            is_first_operand, moved_gate, old_pos))
                     {
                         return false;
                     }
@@ -1193,7 +1224,7 @@ class post_layout_optimization_impl
         {
             restore_original_wiring(lyt, old_path_from_fanin_1_to_gate, old_path_from_fanin_2_to_gate,
                                     old_path_from_gate_to_fanout_1, old_path_from_gate_to_fanout_2, current_pos,
-                                    old_pos, fanouts);
+                                    old_pos, fanouts, is_first_operand);
             return false;
         }
 
-- 
2.43.0


From 00abe936ead8663b423306172266f4f68d3e3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 26/74] fix: do not overwrite primary outputs when optimizing
 output positions

---
 .../algorithms/physical_design/post_layout_optimization.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index f7fef0b..94e9532 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -253,7 +253,7 @@ void optimize_output_positions(Lyt& lyt) noexcept
     // check for misplaced POs in second last row and move them one row down
     for (uint64_t x = 0; x < lyt.x(); ++x)
     {
-        if (lyt.is_po_tile({x, lyt.y() - 1, 0}))
+        if (lyt.is_po_tile({x, lyt.y() - 1, 0}) && lyt.is_empty_tile({x, lyt.y(), 0}))
         {
             // get fanin signal of the PO
             std::vector<mockturtle::signal<Lyt>> signals{};
@@ -276,7 +276,7 @@ void optimize_output_positions(Lyt& lyt) noexcept
     // check for misplaced POs in second last column and move them one column to the right
     for (uint64_t y = 0; y < lyt.y(); ++y)
     {
-        if (lyt.is_po_tile({lyt.x() - 1, y, 0}))
+        if (lyt.is_po_tile({lyt.x() - 1, y, 0}) && lyt.is_empty_tile({lyt.x(), y, 0}))
         {
             // get fanin signal of the PO
             std::vector<mockturtle::signal<Lyt>> signals{};
-- 
2.43.0


From 8d8d1bd4660d430f8909487dc30c4a8d45e97377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 27/74] fix: distance maps cover all layers of a layout

---
 include/fiction/algorithms/path_finding/distance_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/distance_map.hpp b/include/fiction/algorithms/path_finding/distance_map.hpp
index 563acb4..6610e26 100644
--- a/include/fiction/algorithms/path_finding/distance_map.hpp
+++ b/include/fiction/algorithms/path_finding/distance_map.hpp
@@ -57,7 +57,8 @@ template <typename Lyt, typename Dist>
     static_assert(is_coordinate_layout_v<Lyt>, "Lyt is not a coordinate layout");
 
     // initialize distance map
-    distance_map<Dist> dist_map(lyt.area(), std::vector<Dist>(lyt.area(), Dist{}));
+    const auto         num_coordinates = lyt.area() * (lyt.z() + 1);
+    distance_map<Dist> dist_map(num_coordinates, std::vector<Dist>(num_coordinates, Dist{}));
 
     // compute distances and store them via coordinate index
     lyt.foreach_coordinate(
@@ -157,7 +158,7 @@ class distance_map_functor : public distance_functor<Lyt, Dist>
      */
     [[nodiscard]] static constexpr std::size_t coordinate_index(const Lyt& lyt, const coordinate<Lyt>& c) noexcept
     {
-        return (c.y * (lyt.x() + 1)) + c.x;
+        return (((c.z * (lyt.y() + 1)) + c.y) * (lyt.x() + 1)) + c.x;
     }
 };
 /**
-- 
2.43.0


From 88e824aa7cbf122148d26eeff1fbf9296a4a3802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 28/74] fix: yen_k_shortest_paths missed paths and altered the
 given obstructions

---
 .../fiction/algorithms/path_finding/k_shortest_paths.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index c1385ea..178fac2 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -90,10 +90,11 @@ class yen_k_shortest_paths_impl
                 // for all previous paths
                 for (const auto& p : k_shortest_paths)
                 {
-                    // if the root path is equal to a previous partial path
+                    // if the root path up to and including the spur is equal to a previous partial path
                     // p[i] and p[i + 1] are accessed below, so p must hold at least i + 2 coordinates
                     if (p.size() > static_cast<std::size_t>(i) + 1 &&
-                        std::ranges::equal(root_path.cbegin(), root_path.cend(), p.cbegin(), p.cbegin() + i))
+                        std::ranges::equal(latest_path.cbegin(), latest_path.cbegin() + i + 1, p.cbegin(),
+                                           p.cbegin() + i + 1))
                     {
                         // block the connection that was already used in the previous shortest path
                         layout.obstruct_connection(p[i], p[i + 1]);
@@ -105,8 +106,8 @@ class yen_k_shortest_paths_impl
                 // for all coordinates in the root path...
                 for (const auto& root : root_path)
                 {
-                    // ... that are not the spur
-                    if (root != spur)
+                    // ... that are not the spur and not obstructed already
+                    if (root != spur && !layout.is_obstructed_coordinate(root))
                     {
                         // block them from further exploration
                         layout.obstruct_coordinate(root);
-- 
2.43.0


From 3c8b139c42d52ed0ab1284abd499fce1c66b1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 29/74] fix: A* lost the order of its open list when f-values
 improved

---
 .../algorithms/path_finding/a_star.hpp        | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/a_star.hpp b/include/fiction/algorithms/path_finding/a_star.hpp
index 8080766..eacbf6d 100644
--- a/include/fiction/algorithms/path_finding/a_star.hpp
+++ b/include/fiction/algorithms/path_finding/a_star.hpp
@@ -72,6 +72,12 @@ class a_star_impl
             // get coordinate with lowest f-value
             const auto current = get_lowest_f_coord();
 
+            // skip outdated entries
+            if (is_visited(current))
+            {
+                continue;
+            }
+
             // if coord is the target, a path has been found
             if (current == objective.target)
             {
@@ -257,17 +263,9 @@ class a_star_impl
             // compute new f-value
             const auto f = tentative_g + static_cast<g_f_type>(distance(layout, successor, objective.target));
 
-            // if successor is contained in the open list (frontier)
-            if (it != open_list.end())
-            {
-                // update its f-value
-                it->f = f;
-            }
-            else
-            {
-                // add successor to the open list
-                open_list.push({successor, f});
-            }
+            // add successor to the open list; if it is contained already, changing its f-value in place would violate the
+            // order of the priority queue. Instead, the outdated entry is skipped once it is reached
+            open_list.push({successor, f});
         };
 
         if constexpr (is_clocked_layout_v<Lyt>)
-- 
2.43.0


From 2e418114cf7469b1ec0b3f29f9c90694dda51320 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 30/74] fix: type aliases of SiDB layouts name the types they
 say

---
 include/fiction/types.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/types.hpp b/include/fiction/types.hpp
index 951e53e..7c2b565 100644
--- a/include/fiction/types.hpp
+++ b/include/fiction/types.hpp
@@ -278,7 +278,7 @@ using sidb_111_cell_clk_lyt     = sidb_lattice<sidb_111_lattice, sidb_cell_clk_l
 using sidb_111_cell_clk_lyt_ptr = std::shared_ptr<sidb_111_cell_clk_lyt>;
 
 using sidb_111_cell_clk_lyt_siqad     = sidb_lattice<sidb_111_lattice, sidb_cell_clk_lyt_siqad>;
-using sidb_111_cell_clk_lyt_siqad_ptr = std::shared_ptr<sidb_111_cell_clk_lyt>;
+using sidb_111_cell_clk_lyt_siqad_ptr = std::shared_ptr<sidb_111_cell_clk_lyt_siqad>;
 
 using sidb_111_cell_clk_lyt_cube     = sidb_lattice<sidb_111_lattice, sidb_cell_clk_lyt_cube>;
 using sidb_111_cell_clk_lyt_cube_ptr = std::shared_ptr<sidb_111_cell_clk_lyt_cube>;
@@ -292,7 +292,7 @@ using cds_sidb_cell_clk_lyt_ptr = std::shared_ptr<cds_sidb_cell_clk_lyt>;
 using cds_sidb_cell_clk_lyt_siqad     = charge_distribution_surface<sidb_cell_clk_lyt_siqad>;
 using cds_sidb_cell_clk_lyt_siqad_ptr = std::shared_ptr<cds_sidb_cell_clk_lyt_siqad>;
 
-using cds_sidb_cell_clk_lyt_cube     = charge_distribution_surface<sidb_cell_clk_lyt_siqad>;
+using cds_sidb_cell_clk_lyt_cube     = charge_distribution_surface<sidb_cell_clk_lyt_cube>;
 using cds_sidb_cell_clk_lyt_cube_ptr = std::shared_ptr<cds_sidb_cell_clk_lyt_cube>;
 
 using cds_sidb_100_cell_clk_lyt_siqad     = charge_distribution_surface<sidb_100_cell_clk_lyt_siqad>;
@@ -305,10 +305,10 @@ using cds_sidb_111_cell_clk_lyt     = charge_distribution_surface<sidb_111_cell_
 using cds_sidb_111_cell_clk_lyt_ptr = std::shared_ptr<cds_sidb_111_cell_clk_lyt>;
 
 using cds_sidb_111_cell_clk_lyt_siqad     = charge_distribution_surface<sidb_111_cell_clk_lyt_siqad>;
-using cds_sidb_111_cell_clk_lyt_siqad_ptr = std::shared_ptr<sidb_111_cell_clk_lyt_siqad>;
+using cds_sidb_111_cell_clk_lyt_siqad_ptr = std::shared_ptr<cds_sidb_111_cell_clk_lyt_siqad>;
 
 using cds_sidb_111_cell_clk_lyt_cube     = charge_distribution_surface<sidb_111_cell_clk_lyt_cube>;
-using cds_sidb_111_cell_clk_lyt_cube_ptr = std::shared_ptr<sidb_111_cell_clk_lyt_cube>;
+using cds_sidb_111_cell_clk_lyt_cube_ptr = std::shared_ptr<cds_sidb_111_cell_clk_lyt_cube>;
 
 using sidb_defect_cell_clk_lyt     = sidb_defect_surface<sidb_cell_clk_lyt>;
 using sidb_defect_cell_clk_lyt_ptr = std::shared_ptr<sidb_defect_cell_clk_lyt>;
-- 
2.43.0


From c7e4a32aa431b004693bb2e4c5a3d549e6024099 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 31/74] fix: bounding boxes of SiQAD layouts with defects
 compare rows, not their components

---
 include/fiction/layouts/bounding_box.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/layouts/bounding_box.hpp b/include/fiction/layouts/bounding_box.hpp
index ae0d22b..75cbe67 100644
--- a/include/fiction/layouts/bounding_box.hpp
+++ b/include/fiction/layouts/bounding_box.hpp
@@ -116,8 +116,8 @@ class bounding_box_2d
                                            { update_min_max(min_defect, max_defect, defect.first); });
 
                 // Adjust min and max based on defects
-                min = {std::min(min.x, min_defect.x), std::min(min.y, min_defect.y), std::min(min.z, min_defect.z)};
-                max = {std::max(max.x, max_defect.x), std::max(max.y, max_defect.y), std::max(max.z, max_defect.z)};
+                min = min_defect;
+                max = max_defect;
             }
         }
         else
-- 
2.43.0


From 534746c3757ebdeecacddaacf532b4606d98cdef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 32/74] fix: moving a defect onto another one or onto itself
 loses no defect

---
 include/fiction/technology/sidb_defect_surface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/sidb_defect_surface.hpp b/include/fiction/technology/sidb_defect_surface.hpp
index 1840cfe..a68f7cd 100644
--- a/include/fiction/technology/sidb_defect_surface.hpp
+++ b/include/fiction/technology/sidb_defect_surface.hpp
@@ -154,10 +154,11 @@ class sidb_defect_surface<Lyt, false> : public Lyt
     {
         if (const auto defect = get_sidb_defect(source); defect.type != sidb_defect_type::NONE)
         {
-            strg->defective_coordinates.insert({target, defect});
-
             // delete defect at the old coordinate
             strg->defective_coordinates.erase(source);
+
+            // a defect that is already present at the target is replaced
+            strg->defective_coordinates.insert_or_assign(target, defect);
         }
     }
     /**
-- 
2.43.0


From c7011c624092e4fd9bf2f8b53250cde5a530471b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 33/74] fix: normalizing and converting layouts with negative
 coordinates keeps dots, defects, and charges

---
 include/fiction/utils/layout_utils.hpp | 74 ++++++++++++++++++++------
 1 file changed, 57 insertions(+), 17 deletions(-)

diff --git a/include/fiction/utils/layout_utils.hpp b/include/fiction/utils/layout_utils.hpp
index f79da4b..617d206 100644
--- a/include/fiction/utils/layout_utils.hpp
+++ b/include/fiction/utils/layout_utils.hpp
@@ -263,18 +263,24 @@ Lyt normalize_layout_coordinates(const Lyt& lyt) noexcept
     auto x_offset = std::numeric_limits<decltype(lyt.x())>::max();
     auto y_offset = std::numeric_limits<decltype(lyt.y())>::max();
 
-    lyt.foreach_cell(
-        [&x_offset, &y_offset](const auto& c)
+    const auto consider = [&x_offset, &y_offset](const auto& c)
+    {
+        if (c.y < y_offset)
         {
-            if (c.y < y_offset)
-            {
-                y_offset = c.y;
-            }
-            if (c.x < x_offset)
-            {
-                x_offset = c.x;
-            }
-        });
+            y_offset = c.y;
+        }
+        if (c.x < x_offset)
+        {
+            x_offset = c.x;
+        }
+    };
+
+    lyt.foreach_cell([&consider](const auto& c) { consider(c); });
+
+    if constexpr (is_sidb_defect_surface_v<Lyt>)
+    {
+        lyt.foreach_sidb_defect([&consider](const auto& cd) { consider(cd.first); });
+    }
 
     Lyt lyt_new{};
 
@@ -288,14 +294,33 @@ Lyt normalize_layout_coordinates(const Lyt& lyt) noexcept
     lyt_new.set_tile_size_x(lyt.get_tile_size_x());
     lyt_new.set_tile_size_y(lyt.get_tile_size_y());
 
+    const auto shift = [&x_offset, &y_offset](const auto& c)
+    { return coordinate<Lyt>{c.x - x_offset, c.y - y_offset, c.z}; };
+
+    if constexpr (is_sidb_defect_surface_v<Lyt>)
+    {
+        lyt.foreach_sidb_defect([&lyt_new, &shift](const auto& cd)
+                                { lyt_new.assign_sidb_defect(shift(cd.first), cd.second); });
+    }
+
     lyt.foreach_cell(
-        [&lyt_new, &lyt, &x_offset, &y_offset](const auto& c)
+        [&lyt_new, &lyt, &shift](const auto& c)
         {
-            lyt_new.assign_cell_type({c.x - x_offset, c.y - y_offset}, lyt.get_cell_type(c));
-            lyt_new.assign_cell_mode({c.x - x_offset, c.y - y_offset}, lyt.get_cell_mode(c));
-            lyt_new.assign_cell_name({c.x - x_offset, c.y - y_offset}, lyt.get_cell_name(c));
+            lyt_new.assign_cell_type(shift(c), lyt.get_cell_type(c));
+            lyt_new.assign_cell_mode(shift(c), lyt.get_cell_mode(c));
+            lyt_new.assign_cell_name(shift(c), lyt.get_cell_name(c));
         });
 
+    if constexpr (is_charge_distribution_surface_v<Lyt>)
+    {
+        lyt.foreach_cell(
+            [&lyt_new, &lyt, &shift](const auto& c) {
+                lyt_new.assign_charge_state(shift(c), lyt.get_charge_state(c), charge_index_mode::KEEP_CHARGE_INDEX);
+            });
+
+        lyt_new.assign_physical_parameters(lyt.get_simulation_params());
+    }
+
     return lyt_new;
 }
 /**
@@ -421,8 +446,8 @@ template <typename LytDest, typename LytSrc>
 
     bool are_cells_assigned_to_negative_coordinates = false;
 
-    // determine if cells are assigned to negative coordinates. If true, the layout must be normalized first when
-    // converting to offset coordinates.
+    // determine if cells or defects are assigned to negative coordinates. If true, the layout must be normalized first
+    // when converting to offset coordinates.
     lyt.foreach_cell(
         [&are_cells_assigned_to_negative_coordinates](const auto& c)
         {
@@ -435,6 +460,21 @@ template <typename LytDest, typename LytSrc>
             return true;  // keep looping
         });
 
+    if constexpr (is_sidb_defect_surface_v<LytSrc>)
+    {
+        lyt.foreach_sidb_defect(
+            [&are_cells_assigned_to_negative_coordinates](const auto& cd)
+            {
+                if (cd.first.x < 0 || cd.first.y < 0)
+                {
+                    are_cells_assigned_to_negative_coordinates = true;
+                    return false;  // abort
+                }
+
+                return true;  // keep looping
+            });
+    }
+
     if (are_cells_assigned_to_negative_coordinates && has_offset_ucoord_v<LytDest>)
     {
         return convert_layout_to_fiction_coordinates<LytDest>(normalize_layout_coordinates(lyt));
-- 
2.43.0


From beeab47b67e8d06aecb9a46dac21f3f11c01d532 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 34/74] fix: assigning a charge distribution surface also
 assigns its layout

---
 include/fiction/technology/charge_distribution_surface.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 0b537d6..fdc74a5 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -403,6 +403,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
     {
         if (this != &other)
         {
+            Lyt::operator=(other);
             strg = std::make_shared<charge_distribution_storage>(*other.strg);
         }
 
-- 
2.43.0


From 6e34790f002c430599b1752e9f562ec8c41cb13f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 35/74] fix: external potentials at locations without SiDB
 wrote out of bounds

---
 include/fiction/technology/charge_distribution_surface.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index fdc74a5..872b5e4 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -988,8 +988,11 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         {
             if (strg->defects.find(c) == strg->defects.cend())
             {
-                // c is an SiDB
-                strg->local_ext_pot[static_cast<uint64_t>(cell_to_index(c))] = external_pot;
+                // c is an SiDB, unless the potential was assigned to a location that does not hold one (anymore)
+                if (const auto index = cell_to_index(c); index != -1)
+                {
+                    strg->local_ext_pot[static_cast<uint64_t>(index)] = external_pot;
+                }
             }
             else
             {
-- 
2.43.0


From 2d2b25c591e03e550d8a01bdeb5693d9cc4521ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 36/74] fix: the energy of a charge hop counted external
 potentials twice as much as internal ones

---
 include/fiction/technology/charge_distribution_surface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 872b5e4..a5364be 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1276,8 +1276,8 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         const auto hop_del =
             [this](const uint64_t c1, const uint64_t c2)  // energy change when charge hops between two SiDBs.
         {
-            return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] +
-                   (0.5 * (strg->local_int_pot[c1] - strg->local_int_pot[c2] - strg->pot_mat[c1][c2]));
+            return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] + strg->local_int_pot[c1] -
+                   strg->local_int_pot[c2] - strg->pot_mat[c1][c2];
         };
 
         for (uint64_t i = 0u; i < strg->sidb_order.size(); ++i)
-- 
2.43.0


From f13d2b0696d95307cdc4e0d397897b7b3a816784 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 37/74] fix: quickexact reported energies and validity without
 external potentials if no charge state was open

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index 5b6f562..9769b13 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -492,6 +492,9 @@ class quickexact_impl
         charge_lyt.assign_local_external_potential(params.local_external_potential);
         charge_lyt.assign_global_external_potential(params.global_potential);
 
+        // the energy and the physical validity depend on the external potentials
+        charge_lyt.update_after_charge_change();
+
         preassigned_negative_sidb_indices = charge_lyt.negative_sidb_detection();
         preassigned_negative_sidbs.reserve(preassigned_negative_sidb_indices.size());
 
-- 
2.43.0


From d3a4dd11544e8954ee78880e68a8a4b0340961e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 38/74] fix: ClusterComplete crashed if a cluster had no valid
 charge configuration

---
 .../simulation/sidb/ground_state_space.hpp    | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp b/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp
index 0438324..a23a6cc 100644
--- a/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp
+++ b/include/fiction/algorithms/simulation/sidb/ground_state_space.hpp
@@ -153,9 +153,16 @@ class ground_state_space_impl
 
             while (!terminate)
             {
-                while (!update_charge_spaces())
+                while (!unsatisfiable && !update_charge_spaces())
                 {}
 
+                if (unsatisfiable)
+                {
+                    // no charge distribution of the layout is physically valid
+                    top_cluster->charge_space.clear();
+                    break;
+                }
+
                 move_up_hierarchy();
             }
         }
@@ -766,6 +773,13 @@ class ground_state_space_impl
 
             if (!perform_potential_bound_analysis<potential_bound_analysis_mode::ANALYZE_MULTISET>(pst))
             {
+                // the last multiset charge configuration of a cluster cannot be removed: there is no next bound
+                if (removed_ms.size() + 1 == c->charge_space.size())
+                {
+                    unsatisfiable = true;
+                    break;
+                }
+
                 handle_invalid_state(pst);
                 removed_ms.emplace_back(pst.multiset_conf);
                 fixpoint = false;
@@ -1162,7 +1176,7 @@ class ground_state_space_impl
 
         clustering.emplace(min_parent);
 
-        if (update_charge_spaces(min_parent->uid))
+        if (update_charge_spaces(min_parent->uid) && !unsatisfiable)
         {
             move_up_hierarchy();
         }
@@ -1201,6 +1215,10 @@ class ground_state_space_impl
      * `true` if and only if the construction is to be terminated.
      */
     bool terminate = false;
+    /**
+     * `true` if and only if some cluster has no multiset charge configuration that could be physically valid.
+     */
+    bool unsatisfiable = false;
     /**
      * Globally available array of bounds that section the band gap, used for pruning.
      */
-- 
2.43.0


From e8bac8541ea012d19cd414fc527feb6008b65159 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 39/74] fix: quickexact missed positive charges of the
 dependent SiDB if the given base number was 2

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index 9769b13..f64b8b3 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -286,6 +286,8 @@ class quickexact_impl
         else
         {
             result.additional_simulation_parameters.emplace("base_number", uint64_t{3});
+            // the dependent cell may be the only one that can be positively charged
+            charge_layout.assign_base_number(3);
             three_state_simulation(charge_layout);
         }
     }
-- 
2.43.0


From 1e851be82a31c2d536f0d2682c3c5300065ec508 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 40/74] fix: the threads of quicksim shared one random number
 generator without synchronization

---
 include/fiction/technology/charge_distribution_surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index a5364be..3c06d9d 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1601,7 +1601,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             return;
         }
 
-        static std::mt19937_64                  generator(std::random_device{}());
+        thread_local std::mt19937_64            generator(std::random_device{}());
         std::uniform_int_distribution<uint64_t> dist(0, candidates.size() - 1);
         const auto                              random_element = index_vector[candidates[dist(generator)]];
         strg->cell_charge[random_element]                      = sidb_charge_state::NEGATIVE;
-- 
2.43.0


From 97184f016d30a7e19401f4011286287849aa09d6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 41/74] fix: is_ground_state asserted that the simulation
 results contain a charge distribution each

---
 include/fiction/algorithms/simulation/sidb/is_ground_state.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp b/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
index 32e5992..ede58d0 100644
--- a/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
@@ -41,9 +41,6 @@ template <typename Lyt>
 
     const auto ground_state_charge_distributions_heuristic = heuristic_results.groundstates();
 
-    assert(ground_state_charge_distributions_heuristic.size() <= ground_state_charge_distributions_exact.size() &&
-           "The heuristic results must be less equal than the exact results.");
-
     if (ground_state_charge_distributions_exact.size() != ground_state_charge_distributions_heuristic.size())
     {
         return false;
-- 
2.43.0


From 94daad19525decc382967e7ad395cbc39a9c299e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 42/74] fix: energy_distribution::degeneracy() returned the
 number of energy levels instead of the occurrence of the given one

---
 .../simulation/sidb/energy_distribution.hpp      |  7 ++-----
 .../simulation/sidb/operational_domain.hpp       | 16 +++++++++-------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp b/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp
index 704032a..e0b7dee 100644
--- a/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp
+++ b/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp
@@ -83,21 +83,18 @@ class energy_distribution
     /**
      * Returns the degeneracy value (number of states) with the given energy value.
      *
-     * @param energy The energy value for which the excited state number is to be determined.
+     * @param energy The energy value for which the degeneracy is to be determined.
      * @return The degeneracy of the given energy. If the energy value is not found, `std::nullopt` is
      * returned instead.
      */
     [[nodiscard]] std::optional<uint64_t> degeneracy(const double energy) const noexcept
     {
-        uint64_t degeneracy = 0;
-
         for (const auto& [key, value] : distribution)
         {
             if (std::abs(key - energy) < constants::ERROR_MARGIN)
             {
-                return degeneracy;
+                return value;
             }
-            ++degeneracy;
         }
 
         return std::nullopt;
diff --git a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
index 1011e2e..fa192bd 100644
--- a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
@@ -1151,16 +1151,18 @@ class operational_domain_impl
                     const auto energy_dist = calculate_energy_distribution(sim_results.charge_distributions);
 
                     lyt.assign_physical_parameters(simulation_parameters);
-                    const auto degeneracy_of_layout_energy =
-                        energy_dist.degeneracy(lyt.get_electrostatic_potential_energy());
+                    const auto energy_of_layout = lyt.get_electrostatic_potential_energy();
 
-                    if (!degeneracy_of_layout_energy.has_value())
+                    for (uint64_t excited_state_number = 0; excited_state_number < energy_dist.size();
+                         ++excited_state_number)
                     {
-                        return;
+                        if (std::abs(energy_dist.get_nth_state(excited_state_number)->electrostatic_potential_energy -
+                                     energy_of_layout) < constants::ERROR_MARGIN)
+                        {
+                            suitable_params_domain.add_value(param_point, std::make_tuple(excited_state_number));
+                            break;
+                        }
                     }
-
-                    const auto excited_state_number = degeneracy_of_layout_energy.value();
-                    suitable_params_domain.add_value(param_point, std::make_tuple(excited_state_number));
                 }
             });
 
-- 
2.43.0


From ab3d46ec7c29b39086b5e4d2337bb19ce3c778da Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 43/74] fix: operational checks reported non-operational input
 patterns inconsistently and blamed kinks for logic mismatches

---
 .../simulation/sidb/is_operational.hpp        | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/is_operational.hpp b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
index c4f786e..6668858 100644
--- a/include/fiction/algorithms/simulation/sidb/is_operational.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
@@ -583,24 +583,49 @@ class is_operational_impl
             // if no physically valid charge distributions were found, the layout is non-operational
             if (simulation_results.charge_distributions.empty())
             {
+                non_operational_input_pattern_and_non_operationality_reason.emplace_back(
+                    i, non_operationality_reason::LOGIC_MISMATCH);
                 continue;
             }
 
             const auto ground_states = simulation_results.groundstates();
 
+            // kinks are the reason only if no (degenerate) ground state violates the logic
+            auto reason = non_operationality_reason::NONE;
+
             for (const auto& gs : ground_states)
             {
                 const auto [op_status, non_op_reason] = verify_logic_match_of_cds(gs, i);
-                if (op_status == operational_status::NON_OPERATIONAL)
+                if (op_status == operational_status::NON_OPERATIONAL &&
+                    (reason == non_operationality_reason::NONE || reason == non_operationality_reason::KINKS))
                 {
-                    non_operational_input_pattern_and_non_operationality_reason.emplace_back(i, non_op_reason);
+                    reason = non_op_reason;
                 }
             }
+
+            if (reason != non_operationality_reason::NONE)
+            {
+                non_operational_input_pattern_and_non_operationality_reason.emplace_back(i, reason);
+            }
         }
 
         // if we made it here, the layout is operational
         return non_operational_input_pattern_and_non_operationality_reason;
     }
+    /**
+     * Determines whether kinks are the only reason for the layout to be non-operational, i.e., whether there are input
+     * patterns for which it is non-operational and each of them yields the correct logic.
+     *
+     * @return `true` if the layout is non-operational exclusively because of kinks, `false` otherwise.
+     */
+    [[nodiscard]] bool is_non_operational_only_because_of_kinks() noexcept
+    {
+        const auto patterns_and_reasons = determine_non_operational_input_patterns_and_non_operationality_reason();
+
+        return !patterns_and_reasons.empty() &&
+               std::ranges::all_of(patterns_and_reasons, [](const auto& pattern_and_reason)
+                                   { return pattern_and_reason.second == non_operationality_reason::KINKS; });
+    }
     /**
      * Returns the total number of simulator invocations.
      *
@@ -1669,10 +1694,7 @@ template <typename Lyt, typename TT>
 
     detail::is_operational_impl<Lyt, TT> p{lyt, spec, params_with_rejecting_kinks};
 
-    const auto [op_status, non_op_reason] = p.run();
-
-    return op_status == operational_status::NON_OPERATIONAL &&
-           non_op_reason == detail::non_operationality_reason::KINKS;
+    return p.is_non_operational_only_because_of_kinks();
 }
 
 /**
@@ -1720,18 +1742,12 @@ template <typename Lyt, typename TT>
         detail::is_operational_impl<Lyt, TT> p{
             lyt, spec, params_with_rejecting_kinks, input_bdl_wire, output_bdl_wire, canvas_lyt.value()};
 
-        const auto [op_status, non_op_reason] = p.run();
-
-        return op_status == operational_status::NON_OPERATIONAL &&
-               non_op_reason == detail::non_operationality_reason::KINKS;
+        return p.is_non_operational_only_because_of_kinks();
     }
 
     detail::is_operational_impl<Lyt, TT> p{lyt, spec, params_with_rejecting_kinks, input_bdl_wire, output_bdl_wire};
 
-    const auto [op_status, non_op_reason] = p.run();
-
-    return op_status == operational_status::NON_OPERATIONAL &&
-           non_op_reason == detail::non_operationality_reason::KINKS;
+    return p.is_non_operational_only_because_of_kinks();
 }
 
 }  // namespace fiction
-- 
2.43.0


From 4121a1c3a9fb5250a35dba2fc2b140ee09f2e68d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 44/74] fix: time_to_solution did not count the repetitions of
 QuickSim without a result

---
 .../simulation/sidb/time_to_solution.hpp          | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp b/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp
index a7591f7..9c963c0 100644
--- a/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp
+++ b/include/fiction/algorithms/simulation/sidb/time_to_solution.hpp
@@ -145,16 +145,13 @@ void time_to_solution(const Lyt& lyt, const quicksim_params& quicksim_params,
 
     for (auto i = 0u; i < tts_params.repetitions; ++i)
     {
-        if (const auto result = quicksim<Lyt>(lyt, quicksim_params))
+        if (const auto result = quicksim<Lyt>(lyt, quicksim_params); result.has_value())
         {
-            if (!result.has_value())
-            {
-                simulation_results_quicksim.push_back(sidb_simulation_result<Lyt>{});
-            }
-            else
-            {
-                simulation_results_quicksim.push_back(*result);
-            }
+            simulation_results_quicksim.push_back(*result);
+        }
+        else
+        {
+            simulation_results_quicksim.push_back(sidb_simulation_result<Lyt>{});
         }
     }
 
-- 
2.43.0


From 386d7f77807a662dbcaccfaaaf02eb532cb3e599 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 45/74] fix: copies of a BDL input iterator shared their layout
 and changed the input pattern of each other

---
 .../algorithms/iter/bdl_input_iterator.hpp    | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/fiction/algorithms/iter/bdl_input_iterator.hpp b/include/fiction/algorithms/iter/bdl_input_iterator.hpp
index 4e29056..f5a7664 100644
--- a/include/fiction/algorithms/iter/bdl_input_iterator.hpp
+++ b/include/fiction/algorithms/iter/bdl_input_iterator.hpp
@@ -120,6 +120,30 @@ class bdl_input_iterator
         static_assert(has_sidb_technology_v<Lyt>, "Lyt is not an SiDB layout");
         set_all_inputs();
     }
+    /**
+     * Copy constructor. Layouts share their content upon copying. Since each iterator alters its layout, the copy gets
+     * a layout of its own.
+     *
+     * @param other Iterator to copy.
+     */
+    bdl_input_iterator(const bdl_input_iterator& other) noexcept :
+            layout{other.layout.clone()},
+            input_pairs{other.input_pairs},
+            num_inputs{other.num_inputs},
+            input_bdl_wires{other.input_bdl_wires},
+            last_bdl_for_each_wire{other.last_bdl_for_each_wire},
+            upper_input_closer_to_wire_end{other.upper_input_closer_to_wire_end},
+            current_input_index{other.current_input_index},
+            params{other.params}
+    {}
+    /**
+     * Default destructor.
+     */
+    ~bdl_input_iterator() noexcept = default;
+    /**
+     * Copy assignment is not available as the iterator is bound to its layout.
+     */
+    bdl_input_iterator& operator=(const bdl_input_iterator& other) = delete;
     /**
      * Dereference operator. Returns a reference to the layout with the current input state.
      *
-- 
2.43.0


From 40e3c8d2dc95d91420ff2bae7f9c9b01fc08a8cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:00 +0000
Subject: [PATCH 46/74] fix: gate-based critical temperature required input
 cells in the first input pattern and read outputs pointing north or west
 inverted

---
 .../simulation/sidb/critical_temperature.hpp  | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
index 2280e71..5045245 100644
--- a/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
+++ b/include/fiction/algorithms/simulation/sidb/critical_temperature.hpp
@@ -27,6 +27,7 @@
 #include <fmt/format.h>
 #include <mockturtle/utils/stopwatch.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <cstdint>
@@ -187,7 +188,9 @@ class critical_temperature_impl
             return;
         }
 
-        assert(layout.num_pis() > 0 && "gate needs input cells");
+        // input pattern layouts do not necessarily contain input cells: if the absence of a perturber encodes an input
+        // value, the layout of the first input pattern does not contain any
+        assert((layout.num_pis() > 0 || input_pattern_layouts != nullptr) && "gate needs input cells");
         assert(layout.num_pos() > 0 && "gate needs output cells");
 
         if (layout.num_cells() > 1)
@@ -213,6 +216,10 @@ class critical_temperature_impl
                 detected_input_bdl_wires =
                     detect_bdl_wires(layout, params.operational_params.input_bdl_iterator_params.bdl_wire_params,
                                      bdl_wire_selection::INPUT);
+            }
+
+            if (pre_detected_output_bdl_wires == nullptr)
+            {
                 detected_output_bdl_wires =
                     detect_bdl_wires(layout, params.operational_params.input_bdl_iterator_params.bdl_wire_params,
                                      bdl_wire_selection::OUTPUT);
@@ -223,6 +230,9 @@ class critical_temperature_impl
             const auto& output_bdl_wires =
                 pre_detected_output_bdl_wires != nullptr ? *pre_detected_output_bdl_wires : detected_output_bdl_wires;
 
+            // the logic state of an output is read from the SiDB that points in the direction of its wire
+            const auto oriented_output_bdl_pairs = orient_output_bdl_pairs(output_bdl_pairs, output_bdl_wires);
+
             // number of different input combinations
             for (auto i = 0u; i < spec.front().num_bits(); ++i)
             {
@@ -260,7 +270,7 @@ class critical_temperature_impl
                 {
                     // A label that indicates whether the state still fulfills the logic.
                     energy_state_type = calculate_energy_and_state_type_with_kinks_accepted<Lyt>(
-                        distribution, sim_result.charge_distributions, output_bdl_pairs, spec, i);
+                        distribution, sim_result.charge_distributions, oriented_output_bdl_pairs, spec, i);
                 }
 
                 const auto min_energy = energy_state_type.cbegin()->first;
@@ -394,6 +404,39 @@ class critical_temperature_impl
     }
 
   private:
+    /**
+     * Orients the output BDL pairs such that the lower SiDB of each returned pair is the one that is negatively charged
+     * if the pair encodes bit 1. In wires pointing north or west, this is the upper SiDB of the pair.
+     *
+     * @param output_bdl_pairs Output BDL pairs of the layout.
+     * @param output_bdl_wires Output BDL wires of the layout.
+     * @return Output BDL pairs with upper and lower SiDB swapped where necessary.
+     */
+    [[nodiscard]] static std::vector<bdl_pair<cell<Lyt>>>
+    orient_output_bdl_pairs(const std::vector<bdl_pair<cell<Lyt>>>& output_bdl_pairs,
+                            const std::vector<bdl_wire<Lyt>>&       output_bdl_wires) noexcept
+    {
+        auto oriented_pairs = output_bdl_pairs;
+
+        for (auto& pair : oriented_pairs)
+        {
+            for (const auto& wire : output_bdl_wires)
+            {
+                if (std::ranges::find(wire.pairs, pair) != wire.pairs.cend())
+                {
+                    if (wire.port.dir == port_direction::NORTH || wire.port.dir == port_direction::WEST)
+                    {
+                        std::swap(pair.upper, pair.lower);
+                    }
+
+                    break;
+                }
+            }
+        }
+
+        return oriented_pairs;
+    }
+
     /**
      * The energy difference between the ground state and the first erroneous state is determined. Additionally, the
      * state type of the ground state is determined and returned.
-- 
2.43.0


From e6d20e3c61fe190d0ca01fbd966673ffde2d1940 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 47/74] fix: contour tracing of operational domains did not
 terminate at isolated operational points

---
 .../algorithms/simulation/sidb/operational_domain.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
index fa192bd..e1c53e1 100644
--- a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
@@ -899,7 +899,12 @@ class operational_domain_impl
                                  next_clockwise_point(current_neighborhood, backtrack_point);
             }
 
-            while (next_point != contour_starting_point)
+            // number of neighbors of the current contour point that have been found to be non-operational. If this
+            // applies to all of them, the current contour point is an isolated operational point
+            std::size_t num_non_operational_neighbors{0};
+
+            while (next_point != contour_starting_point &&
+                   num_non_operational_neighbors < current_neighborhood.size())
             {
                 const auto operational_status = is_step_point_operational(next_point);
 
@@ -909,10 +914,14 @@ class operational_domain_impl
                     current_contour_point = next_point;
 
                     contour.insert(current_contour_point);
+
+                    num_non_operational_neighbors = 0;
                 }
                 else
                 {
                     backtrack_point = next_point;
+
+                    ++num_non_operational_neighbors;
                 }
 
                 current_neighborhood = moore_neighborhood_2d(current_contour_point);
-- 
2.43.0


From 9951c4226ddaf8cce0cee28780edfd312d79c5a3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 48/74] fix: is_operational asserted on or accepted layouts
 without the BDL outputs of the given function

---
 .../fiction/algorithms/simulation/sidb/is_operational.hpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/is_operational.hpp b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
index 6668858..f2e2d30 100644
--- a/include/fiction/algorithms/simulation/sidb/is_operational.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_operational.hpp
@@ -389,6 +389,12 @@ class is_operational_impl
      */
     [[nodiscard]] std::pair<operational_status, non_operationality_reason> run() noexcept
     {
+        // a layout that lacks a BDL output, e.g., because of displaced SiDBs, cannot implement the given function
+        if (output_bdl_pairs.size() != truth_table.size() || output_bdl_wires.size() != truth_table.size())
+        {
+            return {operational_status::NON_OPERATIONAL, non_operationality_reason::LOGIC_MISMATCH};
+        }
+
         if (canvas_filtering_applicable)
         {
             // number of different input combinations
-- 
2.43.0


From 63fd8226d7c34a0b2dbafe9ed12448d89cf6ce86 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 49/74] fix: quicktrace of defect influence domains started
 contours at SiDBs, walked endlessly, and returned without statistics

---
 .../simulation/sidb/defect_influence.hpp        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
index 9e9d642..5a7f62b 100644
--- a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
+++ b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
@@ -26,8 +26,10 @@
 #include <cstdlib>
 #include <optional>
 #include <random>
+#include <set>
 #include <thread>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 namespace fiction
@@ -346,6 +348,8 @@ class defect_influence_impl
             // if no operational point was found within the specified number of samples, return
             if (!operational_starting_point.has_value())
             {
+                log_stats();
+
                 return influence_domain;
             }
 
@@ -372,6 +376,12 @@ class defect_influence_impl
 
             const auto contour_starting_point = *contour_starting_p;
 
+            // a contour cannot start at an SiDB because the tracing exclusively visits empty positions
+            if (!layout.is_empty_cell(contour_starting_point))
+            {
+                continue;
+            }
+
             // the layout hs to be defect-free.
             assert(layout.num_defects() == 0 && "An atomic defect is added");
 
@@ -392,7 +402,12 @@ class defect_influence_impl
                                   current_neighborhood.front() :
                                   next_clockwise_point(current_neighborhood, backtrack_point);
 
-            while (next_point != contour_starting_point)
+            // keeps track of the visited contour points and the directions from which they have been entered because the
+            // contour does not necessarily lead back to its starting point
+            std::set<std::pair<typename Lyt::cell, typename Lyt::cell>> visited{};
+
+            while (next_point != contour_starting_point &&
+                   visited.emplace(current_contour_point, backtrack_point).second)
             {
                 const auto defect_influence_status = is_defect_influential(spec, next_point);
 
-- 
2.43.0


From b2088a7600d61dd88c7739f68ecfa41229cb4aec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 50/74] fix: threads of the defect influence analysis updated
 the total runtime without synchronization

---
 include/fiction/algorithms/simulation/sidb/defect_influence.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
index 5a7f62b..164152a 100644
--- a/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
+++ b/include/fiction/algorithms/simulation/sidb/defect_influence.hpp
@@ -662,8 +662,6 @@ class defect_influence_impl
             params.operational_params.simulation_parameters,
             quickexact_params<cell<Lyt>>::automatic_base_number_detection::OFF};
 
-        mockturtle::stopwatch stop{stats.time_total};
-
         const auto simulation_results = quickexact(lyt_without_defect, qe_params);
 
         const auto ground_states = simulation_results.groundstates();
-- 
2.43.0


From da3fdad8c6506a6709020dbb2119ea495a9f6882 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:23:30 +0000
Subject: [PATCH 51/74] fix: random SiDB layouts replaced or removed SiDBs of
 their skeleton

---
 .../simulation/sidb/random_sidb_layout_generator.hpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
index 3c918ca..1c33549 100644
--- a/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
+++ b/include/fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp
@@ -141,9 +141,9 @@ generate_random_sidb_layout(const generate_random_sidb_layout_params<coordinate<
             random_cell_is_identical_with_defect = (lyt.get_sidb_defect(random_coord).type != sidb_defect_type::NONE);
         }
 
-        // if the constraints that no positive SiDBs occur and the cell is not yet occupied by a defect are satisfied,
-        // the SiDB is added to the layout
-        if (!random_cell_is_identical_with_defect && !next_to_neutral_defect)
+        // if the constraints that no positive SiDBs occur and the cell is neither occupied by an SiDB nor by a defect are
+        // satisfied, the SiDB is added to the layout
+        if (!random_cell_is_identical_with_defect && !next_to_neutral_defect && lyt.is_empty_cell(random_coord))
         {
             if (skeleton.has_value())
             {
-- 
2.43.0


From e7fab9ccfb3428878b5eba1e697f68da03dfd038 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 52/74] fix: threads of the SiDB gate designers shared a random
 number generator and wrote to their parameters without synchronization

---
 .../algorithms/physical_design/design_sidb_gates.hpp      | 8 ++++----
 include/fiction/utils/layout_utils.hpp                    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/design_sidb_gates.hpp b/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
index 002921c..8d2e24e 100644
--- a/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
+++ b/include/fiction/algorithms/physical_design/design_sidb_gates.hpp
@@ -435,6 +435,10 @@ class design_sidb_gates_impl
 
         std::atomic<bool> gate_design_found = false;
 
+        // pruning was already conducted above. Hence, SIMULATION_ONLY is chosen.
+        params.operational_params.strategy_to_analyze_operational_status =
+            is_operational_params::operational_analysis_strategy::SIMULATION_ONLY;
+
         const auto check_operational_status =
             [this, &gate_layouts, &mutex_to_protect_gate_designs, &gate_design_found](const auto& candidate) noexcept
         {
@@ -445,10 +449,6 @@ class design_sidb_gates_impl
                 return;
             }
 
-            // pruning was already conducted above. Hence, SIMULATION_ONLY is chosen.
-            params.operational_params.strategy_to_analyze_operational_status =
-                is_operational_params::operational_analysis_strategy::SIMULATION_ONLY;
-
             if (const auto [status, sim_calls] = is_operational(candidate, truth_table, params.operational_params,
                                                                 input_bdl_wires, output_bdl_wires);
                 status == operational_status::OPERATIONAL)
diff --git a/include/fiction/utils/layout_utils.hpp b/include/fiction/utils/layout_utils.hpp
index 617d206..b590a07 100644
--- a/include/fiction/utils/layout_utils.hpp
+++ b/include/fiction/utils/layout_utils.hpp
@@ -626,7 +626,7 @@ template <typename LytDest, typename LytSrc>
 template <typename CoordinateType>
 CoordinateType random_coordinate(CoordinateType coordinate1, CoordinateType coordinate2) noexcept
 {
-    static std::mt19937_64 generator(std::random_device{}());
+    static thread_local std::mt19937_64 generator(std::random_device{}());
 
     if (coordinate1 > coordinate2)
     {
-- 
2.43.0


From 08ca9873b734620c5b5723baae98480fe4530b69 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 53/74] fix: FGL files did not tell three-phase clocking
 schemes from four-phase ones

---
 include/fiction/io/write_fgl_layout.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/fiction/io/write_fgl_layout.hpp b/include/fiction/io/write_fgl_layout.hpp
index 4f123ba..9b03335 100644
--- a/include/fiction/io/write_fgl_layout.hpp
+++ b/include/fiction/io/write_fgl_layout.hpp
@@ -5,6 +5,7 @@
 #ifndef FICTION_WRITE_FGL_LAYOUT_HPP
 #define FICTION_WRITE_FGL_LAYOUT_HPP
 
+#include "fiction/layouts/clocking_scheme.hpp"
 #include "fiction/traits.hpp"
 #include "fiction/utils/stl_utils.hpp"
 #include "fiction/utils/version_info.hpp"
@@ -147,7 +148,15 @@ class write_fgl_layout_impl
 
         os << fcn::OPEN_CLOCKING;
         const auto clocking_scheme = lyt.get_clocking_scheme();
-        os << fmt::format(fcn::CLOCKING_SCHEME_NAME, clocking_scheme.name);
+
+        // the names of some schemes do not tell their number of clock phases, e.g., "2DDWAVE" is read as "2DDWAVE4"
+        std::string clocking_scheme_name{clocking_scheme.name};
+        if (const auto default_scheme = get_clocking_scheme<Lyt>(clocking_scheme_name);
+            default_scheme.has_value() && default_scheme->num_clocks != clocking_scheme.num_clocks)
+        {
+            clocking_scheme_name += std::to_string(static_cast<uint32_t>(clocking_scheme.num_clocks));
+        }
+        os << fmt::format(fcn::CLOCKING_SCHEME_NAME, clocking_scheme_name);
 
         // if clocking scheme is irregular, overwrite clock zones
         if (!clocking_scheme.is_regular())
-- 
2.43.0


From 0d62c70f61d2b814644c7b7f383cd85724d3f840 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:31:10 +0000
Subject: [PATCH 54/74] fix: names with XML special characters made FGL files
 unreadable

---
 include/fiction/io/write_fgl_layout.hpp | 30 ++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/fiction/io/write_fgl_layout.hpp b/include/fiction/io/write_fgl_layout.hpp
index 9b03335..9928795 100644
--- a/include/fiction/io/write_fgl_layout.hpp
+++ b/include/fiction/io/write_fgl_layout.hpp
@@ -97,7 +97,7 @@ class write_fgl_layout_impl
         os << fmt::format(fcn::FICTION_METADATA, FICTION_VERSION, FICTION_REPO, time_str);
 
         os << fcn::OPEN_LAYOUT_METADATA;
-        const std::string layout_name{get_name(lyt)};
+        const std::string layout_name{escape_xml(get_name(lyt))};
 
         // check if topology matches Lyt
         std::string topology{};
@@ -187,7 +187,7 @@ class write_fgl_layout_impl
             {
                 const auto coord = lyt.get_tile(gate);
                 os << fcn::OPEN_GATE;
-                os << fmt::format(fcn::GATE, gate_id, "PI", lyt.get_name(gate), coord.x, coord.y, coord.z);
+                os << fmt::format(fcn::GATE, gate_id, "PI", escape_xml(lyt.get_name(gate)), coord.x, coord.y, coord.z);
                 os << fcn::CLOSE_GATE;
                 gate_id++;
             });
@@ -204,7 +204,7 @@ class write_fgl_layout_impl
 
                     if (lyt.is_po(gate))
                     {
-                        os << fmt::format(fcn::GATE, gate_id, "PO", lyt.get_name(gate), coord.x, coord.y, coord.z);
+                        os << fmt::format(fcn::GATE, gate_id, "PO", escape_xml(lyt.get_name(gate)), coord.x, coord.y, coord.z);
                     }
                     else if (lyt.is_wire(gate))
                     {
@@ -325,6 +325,30 @@ class write_fgl_layout_impl
     }
 
   private:
+    /**
+     * Replaces the characters that have a special meaning in XML by the respective entities.
+     *
+     * @param text Text to escape.
+     * @return `text` with all occurrences of `&`, `<`, and `>` being replaced.
+     */
+    [[nodiscard]] static std::string escape_xml(const std::string& text)
+    {
+        std::string escaped{};
+        escaped.reserve(text.size());
+
+        for (const auto c : text)
+        {
+            switch (c)
+            {
+                case '&': escaped += "&amp;"; break;
+                case '<': escaped += "&lt;"; break;
+                case '>': escaped += "&gt;"; break;
+                default: escaped += c;
+            }
+        }
+
+        return escaped;
+    }
     /**
      * The layout to be written.
      */
-- 
2.43.0


From 3b6ee5d2dc3cdf9a66126323151da86c01c6fa24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:35:52 +0000
Subject: [PATCH 55/74] fix: FGL files with malformed numbers or functions were
 not refused with an fgl_parsing_error

---
 include/fiction/io/read_fgl_layout.hpp | 76 +++++++++++++++++++-------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/include/fiction/io/read_fgl_layout.hpp b/include/fiction/io/read_fgl_layout.hpp
index 4aa43db..d905fcc 100644
--- a/include/fiction/io/read_fgl_layout.hpp
+++ b/include/fiction/io/read_fgl_layout.hpp
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <array>
 #include <cctype>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <fstream>
@@ -34,6 +35,7 @@
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <utility>
 #include <vector>
 
 namespace fiction
@@ -213,7 +215,7 @@ class read_fgl_layout_impl
             int x = 0;
             if (auto* const size_x = size->FirstChildElement("x"); size_x != nullptr && (size_x->GetText() != nullptr))
             {
-                x = std::stoi(size_x->GetText());
+                x = parse_number<int>(size_x->GetText());
             }
             else
             {
@@ -223,7 +225,7 @@ class read_fgl_layout_impl
             int y = 0;
             if (auto* const size_y = size->FirstChildElement("y"); size_y != nullptr && (size_y->GetText() != nullptr))
             {
-                y = std::stoi(size_y->GetText());
+                y = parse_number<int>(size_y->GetText());
             }
             else
             {
@@ -233,7 +235,7 @@ class read_fgl_layout_impl
             int z = 0;
             if (auto* const size_z = size->FirstChildElement("z"); size_z != nullptr && (size_z->GetText() != nullptr))
             {
-                z = std::stoi(size_z->GetText());
+                z = parse_number<int>(size_z->GetText());
             }
             else
             {
@@ -269,7 +271,7 @@ class read_fgl_layout_impl
                             if (const auto* const clocking_zone_x = clock_zone->FirstChildElement("x");
                                 clocking_zone_x != nullptr && (clocking_zone_x->GetText() != nullptr))
                             {
-                                x_coord = std::stoi(clocking_zone_x->GetText());
+                                x_coord = parse_number<int>(clocking_zone_x->GetText());
                             }
                             else
                             {
@@ -280,7 +282,7 @@ class read_fgl_layout_impl
                             if (const auto* const clocking_zone_y = clock_zone->FirstChildElement("y");
                                 clocking_zone_y != nullptr && (clocking_zone_y->GetText() != nullptr))
                             {
-                                y_coord = std::stoi(clocking_zone_y->GetText());
+                                y_coord = parse_number<int>(clocking_zone_y->GetText());
                             }
                             else
                             {
@@ -291,7 +293,7 @@ class read_fgl_layout_impl
                             if (const auto* const clocking_zone_clock = clock_zone->FirstChildElement("clock");
                                 clocking_zone_clock != nullptr && (clocking_zone_clock->GetText() != nullptr))
                             {
-                                clock = static_cast<uint8_t>(*clocking_zone_clock->GetText());
+                                clock = parse_number<uint8_t>(clocking_zone_clock->GetText());
                             }
                             else
                             {
@@ -336,7 +338,7 @@ class read_fgl_layout_impl
                 if (const auto* const gate_id = gate_xml->FirstChildElement("id");
                     gate_id != nullptr && (gate_id->GetText() != nullptr))
                 {
-                    gate.id = std::stoi(gate_id->GetText());
+                    gate.id = parse_number<int>(gate_id->GetText());
                 }
                 else
                 {
@@ -378,7 +380,7 @@ class read_fgl_layout_impl
                 if (const auto* const loc_x = loc->FirstChildElement("x");
                     loc_x != nullptr && (loc_x->GetText() != nullptr))
                 {
-                    gate.loc.x = static_cast<decltype(gate.loc.x)>(std::stoull(loc_x->GetText()));
+                    gate.loc.x = static_cast<decltype(gate.loc.x)>(parse_number<int64_t>(loc_x->GetText()));
                 }
                 else
                 {
@@ -389,7 +391,7 @@ class read_fgl_layout_impl
                 if (const auto* const loc_y = loc->FirstChildElement("y");
                     loc_y != nullptr && (loc_y->GetText() != nullptr))
                 {
-                    gate.loc.y = static_cast<decltype(gate.loc.y)>(std::stoull(loc_y->GetText()));
+                    gate.loc.y = static_cast<decltype(gate.loc.y)>(parse_number<int64_t>(loc_y->GetText()));
                 }
                 else
                 {
@@ -400,7 +402,7 @@ class read_fgl_layout_impl
                 if (const auto* const loc_z = loc->FirstChildElement("z");
                     loc_z != nullptr && (loc_z->GetText() != nullptr))
                 {
-                    gate.loc.z = static_cast<decltype(gate.loc.z)>(std::stoull(loc_z->GetText()));
+                    gate.loc.z = static_cast<decltype(gate.loc.z)>(parse_number<int64_t>(loc_z->GetText()));
                 }
                 else
                 {
@@ -419,7 +421,7 @@ class read_fgl_layout_impl
                         if (const auto* const incoming_signal_x = incoming_signal->FirstChildElement("x");
                             incoming_signal_x != nullptr && (incoming_signal_x->GetText() != nullptr))
                         {
-                            incoming.x = static_cast<decltype(incoming.x)>(std::stoull(incoming_signal_x->GetText()));
+                            incoming.x = static_cast<decltype(incoming.x)>(parse_number<int64_t>(incoming_signal_x->GetText()));
                         }
                         else
                         {
@@ -430,7 +432,7 @@ class read_fgl_layout_impl
                         if (const auto* const incoming_signal_y = incoming_signal->FirstChildElement("y");
                             incoming_signal_y != nullptr && (incoming_signal_y->GetText() != nullptr))
                         {
-                            incoming.y = static_cast<decltype(incoming.y)>(std::stoull(incoming_signal_y->GetText()));
+                            incoming.y = static_cast<decltype(incoming.y)>(parse_number<int64_t>(incoming_signal_y->GetText()));
                         }
                         else
                         {
@@ -441,7 +443,7 @@ class read_fgl_layout_impl
                         if (const auto* const incoming_signal_z = incoming_signal->FirstChildElement("z");
                             incoming_signal_z != nullptr && (incoming_signal_z->GetText() != nullptr))
                         {
-                            incoming.z = static_cast<decltype(incoming.z)>(std::stoull(incoming_signal_z->GetText()));
+                            incoming.z = static_cast<decltype(incoming.z)>(parse_number<int64_t>(incoming_signal_z->GetText()));
                         }
                         else
                         {
@@ -506,8 +508,7 @@ class read_fgl_layout_impl
                             lyt.create_not(incoming_signal, location);
                         }
                     }
-                    else if (std::ranges::all_of(gate.type,
-                                                 [](const unsigned char c) { return std::isxdigit(c) != 0; }))
+                    else if (is_hex_function(gate.type, gate.incoming.size()))
                     {
                         if constexpr (mockturtle::has_create_node_v<Lyt>)
                         {
@@ -603,8 +604,7 @@ class read_fgl_layout_impl
                             lyt.create_ge(incoming_signal_1, incoming_signal_2, location);
                         }
                     }
-                    else if (std::ranges::all_of(gate.type,
-                                                 [](const unsigned char c) { return std::isxdigit(c) != 0; }))
+                    else if (is_hex_function(gate.type, gate.incoming.size()))
                     {
                         if constexpr (mockturtle::has_create_node_v<Lyt>)
                         {
@@ -638,8 +638,7 @@ class read_fgl_layout_impl
                             lyt.create_maj(incoming_signal_1, incoming_signal_2, incoming_signal_3, location);
                         }
                     }
-                    else if (std::ranges::all_of(gate.type,
-                                                 [](const unsigned char c) { return std::isxdigit(c) != 0; }))
+                    else if (is_hex_function(gate.type, gate.incoming.size()))
                     {
                         if constexpr (mockturtle::has_create_node_v<Lyt>)
                         {
@@ -654,7 +653,7 @@ class read_fgl_layout_impl
                             "Error parsing FGL file: unknown gate of type '{}' with 3 input signals", gate.type));
                     }
                 }
-                else if (std::ranges::all_of(gate.type, [](const unsigned char c) { return std::isxdigit(c) != 0; }))
+                else if (is_hex_function(gate.type, gate.incoming.size()))
                 {
                     if constexpr (mockturtle::has_create_node_v<Lyt>)
                     {
@@ -684,6 +683,43 @@ class read_fgl_layout_impl
     }
 
   private:
+    /**
+     * Converts a text to a number. Leading whitespace and anything after the number are ignored.
+     *
+     * @tparam Number Integral type of the number.
+     * @param text Text to convert.
+     * @return The number that `text` represents.
+     * @throws fgl_parsing_error if `text` does not represent a number that fits into `Number`.
+     */
+    template <typename Number>
+    [[nodiscard]] static Number parse_number(const char* text)
+    {
+        try
+        {
+            if (const auto number = std::stoll(text); std::in_range<Number>(number))
+            {
+                return static_cast<Number>(number);
+            }
+        }
+        catch (const std::logic_error&)  // std::invalid_argument or std::out_of_range
+        {
+            throw fgl_parsing_error(fmt::format("Error parsing FGL file: '{}' is not a valid number", text));
+        }
+
+        throw fgl_parsing_error(fmt::format("Error parsing FGL file: '{}' is out of range", text));
+    }
+    /**
+     * Checks whether a gate type is the hexadecimal representation of a function of a given number of variables.
+     *
+     * @param type Gate type to check.
+     * @param num_vars Number of variables, i.e., incoming signals.
+     * @return `true` iff `type` consists of as many hexadecimal digits as needed for functions of `num_vars` variables.
+     */
+    [[nodiscard]] static bool is_hex_function(const std::string& type, const std::size_t num_vars)
+    {
+        return num_vars < 32u && type.size() == (num_vars < 2u ? 1u : std::size_t{1u} << (num_vars - 2u)) &&
+               std::ranges::all_of(type, [](const unsigned char c) { return std::isxdigit(c) != 0; });
+    }
     /**
      * The layout which will be altered based on the parsed information.
      */
-- 
2.43.0


From 0eff4e2a91d390ef4ee7a13e7f70b8d29c4b727d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 56/74] fix: malformed numbers, negative Coulomb parameters,
 and empty defect labels in SQD files were not refused with an
 sqd_parsing_error but caused other exceptions or aborts

---
 include/fiction/io/read_sqd_layout.hpp | 52 +++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/include/fiction/io/read_sqd_layout.hpp b/include/fiction/io/read_sqd_layout.hpp
index 4fb4202..e6aa773 100644
--- a/include/fiction/io/read_sqd_layout.hpp
+++ b/include/fiction/io/read_sqd_layout.hpp
@@ -22,7 +22,9 @@
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace fiction
@@ -239,6 +241,35 @@ class read_sqd_layout_impl
             throw sqd_parsing_error("Error parsing SQD file: unknown lattice orientation");
         }
     }
+    /**
+     * Converts a text to a number. Leading whitespace and anything after the number are ignored.
+     *
+     * @tparam Number Type of the number.
+     * @param text Text to convert.
+     * @return The number that `text` represents.
+     * @throws sqd_parsing_error if `text` does not represent a number that fits into `Number`.
+     */
+    template <typename Number>
+    [[nodiscard]] static Number parse_number(const char* text)
+    {
+        try
+        {
+            if constexpr (std::is_floating_point_v<Number>)
+            {
+                return static_cast<Number>(std::stod(text));
+            }
+            else if (const auto number = std::stoll(text); std::in_range<Number>(number))
+            {
+                return static_cast<Number>(number);
+            }
+        }
+        catch (const std::logic_error&)  // std::invalid_argument or std::out_of_range
+        {
+            throw sqd_parsing_error("Error parsing SQD file: '" + std::string{text} + "' is not a valid number");
+        }
+
+        throw sqd_parsing_error("Error parsing SQD file: '" + std::string{text} + "' is out of range");
+    }
     /**
      * Parses a <latcoord> element from the SQD file and returns its specified cell position.
      *
@@ -257,13 +288,13 @@ class read_sqd_layout_impl
         // special case for SiQAD coordinates
         if constexpr (has_siqad_coord_v<Lyt>)
         {
-            cell<Lyt> cell{std::stoll(n), std::stoll(m), std::stoll(l)};
+            cell<Lyt> cell{parse_number<int32_t>(n), parse_number<int32_t>(m), parse_number<int32_t>(l)};
             update_bounding_box(cell);
             return cell;
         }
 
         // Cartesian coordinates
-        return dimer_to_cell(std::stoll(n), std::stoll(m), std::stoll(l));
+        return dimer_to_cell(parse_number<int32_t>(n), parse_number<int32_t>(m), parse_number<int32_t>(l));
     }
     /**
      * Parses the <type> attribute of a <dbdot> element from the SQD file and returns the corresponding cell type.
@@ -391,7 +422,10 @@ class read_sqd_layout_impl
                 {
                     if (const auto* const val = type_label->FirstChildElement("val"); val != nullptr)
                     {
-                        defect_type = parse_defect_label(val->GetText());
+                        if (const auto* const label = val->GetText(); label != nullptr)
+                        {
+                            defect_type = parse_defect_label(label);
+                        }
                     }
                 }
             }
@@ -410,9 +444,15 @@ class read_sqd_layout_impl
                         "Error parsing SQD file: no attribute 'charge', 'eps_r', or 'lambda_tf' in element 'coulomb'");
                 }
 
-                charge    = std::stoll(charge_string);
-                eps_r     = std::stod(eps_r_string);
-                lambda_tf = std::stod(lambda_tf_string);
+                charge    = parse_number<int64_t>(charge_string);
+                eps_r     = parse_number<double>(eps_r_string);
+                lambda_tf = parse_number<double>(lambda_tf_string);
+
+                if (!(eps_r >= 0.0) || !(lambda_tf >= 0.0))
+                {
+                    throw sqd_parsing_error(
+                        "Error parsing SQD file: negative 'eps_r' or 'lambda_tf' in element 'coulomb'");
+                }
             }
 
             std::ranges::for_each(
-- 
2.43.0


From 152d8c33264847b6b2c00412c02ab0ac47e9666b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 57/74] fix: arsenic defects turned into unknown ones in SQD
 files

---
 include/fiction/io/read_sqd_layout.hpp  | 1 +
 include/fiction/io/write_sqd_layout.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/fiction/io/read_sqd_layout.hpp b/include/fiction/io/read_sqd_layout.hpp
index e6aa773..4cd8fb0 100644
--- a/include/fiction/io/read_sqd_layout.hpp
+++ b/include/fiction/io/read_sqd_layout.hpp
@@ -376,6 +376,7 @@ class read_sqd_layout_impl
              {"siloxane", sidb_defect_type::SILOXANE},
              {"raised_silicon", sidb_defect_type::RAISED_SI},
              {"missing_dimer", sidb_defect_type::MISSING_DIMER},
+             {"arsenic", sidb_defect_type::ARSENIC},
              {"etch_pit", sidb_defect_type::ETCH_PIT},
              {"step_edge", sidb_defect_type::STEP_EDGE},
              {"gunk", sidb_defect_type::GUNK},
diff --git a/include/fiction/io/write_sqd_layout.hpp b/include/fiction/io/write_sqd_layout.hpp
index 846116f..35929a1 100644
--- a/include/fiction/io/write_sqd_layout.hpp
+++ b/include/fiction/io/write_sqd_layout.hpp
@@ -174,6 +174,7 @@ inline const std::unordered_map<sidb_defect_type, const char*> defect_type_to_na
      {sidb_defect_type::SILOXANE, "Siloxane"},
      {sidb_defect_type::RAISED_SI, "Raised_Silicon"},
      {sidb_defect_type::MISSING_DIMER, "Missing_Dimer"},
+     {sidb_defect_type::ARSENIC, "Arsenic"},
      {sidb_defect_type::ETCH_PIT, "Etch_Pit"},
      {sidb_defect_type::STEP_EDGE, "Step_Edge"},
      {sidb_defect_type::GUNK, "Gunk"},
-- 
2.43.0


From c1ad33e69024e44758aa65e2578ef837cd8f9126 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 58/74] fix: the layout names given to the fqca and surface
 defect readers were read beyond the end of their string views

---
 include/fiction/io/read_fqca_layout.hpp          | 2 +-
 include/fiction/io/read_sidb_surface_defects.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/read_fqca_layout.hpp b/include/fiction/io/read_fqca_layout.hpp
index 6afa7aa..7c9534d 100644
--- a/include/fiction/io/read_fqca_layout.hpp
+++ b/include/fiction/io/read_fqca_layout.hpp
@@ -93,7 +93,7 @@ template <typename Lyt>
 class read_fqca_layout_impl
 {
   public:
-    explicit read_fqca_layout_impl(std::istream& s, const std::string_view& name) : lyt{{}, name.data()}, is{s} {}
+    explicit read_fqca_layout_impl(std::istream& s, const std::string_view& name) : lyt{{}, std::string{name}}, is{s} {}
 
     Lyt run()
     {
diff --git a/include/fiction/io/read_sidb_surface_defects.hpp b/include/fiction/io/read_sidb_surface_defects.hpp
index 620e2e6..477a104 100644
--- a/include/fiction/io/read_sidb_surface_defects.hpp
+++ b/include/fiction/io/read_sidb_surface_defects.hpp
@@ -92,7 +92,7 @@ class read_sidb_surface_defects_impl
 {
   public:
     explicit read_sidb_surface_defects_impl(std::istream& s, const std::string_view& name) :
-            lyt{sidb_defect_surface{Lyt{{}, name.data()}}},
+            lyt{sidb_defect_surface{Lyt{{}, std::string{name}}}},
             defect_matrix{std::istreambuf_iterator<char>(s), {}}  // read the stream into a string to perform regex
     {}
 
-- 
2.43.0


From d01bd94f3c5ea3a3c70a67fb19ee49364d67f5a6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:38:02 +0000
Subject: [PATCH 59/74] fix: cell labels lost their white space when reading
 fqca files

---
 include/fiction/io/read_fqca_layout.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/read_fqca_layout.hpp b/include/fiction/io/read_fqca_layout.hpp
index 7c9534d..7e73ec2 100644
--- a/include/fiction/io/read_fqca_layout.hpp
+++ b/include/fiction/io/read_fqca_layout.hpp
@@ -74,7 +74,8 @@ inline const std::regex RE_WHITE_SPACE{R"(\s)"};
 inline const std::regex RE_COMMENT{R"(\[.*\]$)"};
 inline const std::regex RE_LAYER_SEPARATOR{R"(^=+$)"};
 inline const std::regex RE_CELL_DEFINITION_ID{R"(^(\w)\:$)"};              // group 1 is the id
-inline const std::regex RE_CELL_DEFINITION_LABEL{R"(^-label=\"(.*)\"$)"};  // group 1 is the label
+inline const std::regex RE_CELL_DEFINITION_LABEL{
+    R"(^\s*-\s*label\s*=\s*\"(.*)\"\s*$)"};  // group 1 is the label that may contain white space
 inline const std::regex RE_CELL_DEFINITION_CLOCK{R"(^-clock=(\d)$)"};      // group 1 is the clock number
 inline const std::regex RE_CELL_DEFINITION_NUMBER{R"(^-number=(\d+)$)"};   // group 1 is the number
 inline const std::regex RE_CELL_DEFINITION_OFFSET{
@@ -176,7 +177,7 @@ class read_fqca_layout_impl
                             lyt.assign_cell_type(current_labeled_cell, technology<Lyt>::cell_type::OUTPUT);
                         }
                         // if line indicates a cell label
-                        else if (std::regex_match(substituted_line, sm, qca_stack::RE_CELL_DEFINITION_LABEL))
+                        else if (std::regex_match(line, sm, qca_stack::RE_CELL_DEFINITION_LABEL))
                         {
                             // the cell label is captured in the first regex group
                             const auto cell_label = sm.str(1);
-- 
2.43.0


From 7d91f92244bdf48859dcd96a1ee1c67c9eb143a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 60/74] fix: long rows overflowed the stack and malformed ones
 took exponential time when reading surface defects

---
 .../fiction/io/read_sidb_surface_defects.hpp  | 48 ++++++++++++++-----
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/include/fiction/io/read_sidb_surface_defects.hpp b/include/fiction/io/read_sidb_surface_defects.hpp
index 477a104..65785b0 100644
--- a/include/fiction/io/read_sidb_surface_defects.hpp
+++ b/include/fiction/io/read_sidb_surface_defects.hpp
@@ -20,6 +20,7 @@
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <utility>
 #include <vector>
 
 namespace fiction
@@ -66,8 +67,7 @@ namespace sidb_defects
 
 /* Regex */
 
-inline const std::regex RE_DEFECT_MATRIX{R"(\[(?:\s*\d+\s*)+\])"};  // each match is one row
-inline const std::regex RE_ROW_INDICES{R"((\d+))"};                 // each match is one index
+inline const std::regex RE_ROW_INDICES{R"((\d+))"};  // each match is one index
 
 /**
  * Maps indices in the data format to defect types.
@@ -98,16 +98,12 @@ class read_sidb_surface_defects_impl
 
     sidb_defect_surface<Lyt> run()
     {
-        // each match is one row
-        const std::vector<std::smatch> matrix_matches{
-            std::sregex_iterator(std::cbegin(defect_matrix), std::cend(defect_matrix), sidb_defects::RE_DEFECT_MATRIX),
-            std::sregex_iterator()};
+        const auto rows = extract_rows();
 
-        // iterate over the row matches
-        for (auto y = 0u; y < matrix_matches.size(); ++y)
+        // iterate over the rows
+        for (auto y = 0u; y < rows.size(); ++y)
         {
-            // get the match as a string
-            const auto row_str = matrix_matches[y].str();
+            const auto& row_str = rows[y];
 
             // each match is a defect index
             const std::vector<std::smatch> row_matches{
@@ -145,7 +141,7 @@ class read_sidb_surface_defects_impl
         }
 
         // y-dimension of the surface
-        max_cell_pos.y = static_cast<decltype(max_cell_pos.y)>(matrix_matches.empty() ? 0 : matrix_matches.size() - 1);
+        max_cell_pos.y = static_cast<decltype(max_cell_pos.y)>(rows.empty() ? 0 : rows.size() - 1);
 
         // resize the layout to fit all surface defects
         lyt.resize(max_cell_pos);
@@ -159,6 +155,36 @@ class read_sidb_surface_defects_impl
     const std::string defect_matrix;
 
     cell<Lyt> max_cell_pos{};
+
+    /**
+     * Extracts the rows from the defect matrix. A row consists of indices and white space enclosed by brackets. Rows can
+     * be arbitrarily long, which is why no regex is used here (its recursion depth and, on mismatches, its runtime grow
+     * with the length of the row).
+     *
+     * @return The contents of all rows, i.e., without the brackets.
+     */
+    [[nodiscard]] std::vector<std::string> extract_rows() const
+    {
+        std::vector<std::string> rows{};
+
+        for (auto begin = defect_matrix.find('['); begin != std::string::npos; begin = defect_matrix.find('[', begin))
+        {
+            ++begin;
+            const auto end = defect_matrix.find_first_not_of("0123456789 \t\n\v\f\r", begin);
+
+            if (end != std::string::npos && defect_matrix[end] == ']')
+            {
+                auto row = defect_matrix.substr(begin, end - begin);
+
+                if (row.find_first_of("0123456789") != std::string::npos)
+                {
+                    rows.push_back(std::move(row));
+                }
+            }
+        }
+
+        return rows;
+    }
 };
 
 #pragma GCC diagnostic pop
-- 
2.43.0


From 37324c7f81b1e85239ab2b80b3f403a1e1b60ce4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:43:03 +0000
Subject: [PATCH 61/74] fix: huge defect indices were not refused with an
 unsupported_defect_index_exception

---
 include/fiction/io/read_sidb_surface_defects.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fiction/io/read_sidb_surface_defects.hpp b/include/fiction/io/read_sidb_surface_defects.hpp
index 65785b0..2942341 100644
--- a/include/fiction/io/read_sidb_surface_defects.hpp
+++ b/include/fiction/io/read_sidb_surface_defects.hpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <istream>
 #include <iterator>
+#include <limits>
 #include <regex>
 #include <stdexcept>
 #include <string>
@@ -124,10 +125,12 @@ class read_sidb_surface_defects_impl
             // iterate over the index matches
             for (auto x = 0u; x < row_matches.size(); ++x)
             {
-                const auto defect_index = std::stoi(row_matches[x].str());
+                auto defect_index = std::numeric_limits<int>::max();
 
                 try
                 {
+                    defect_index = std::stoi(row_matches[x].str());
+
                     // assign the defect
                     lyt.assign_sidb_defect(
                         {x, y}, sidb_defect{sidb_defects::INDEX_TO_DEFECT.at(static_cast<std::size_t>(defect_index))});
-- 
2.43.0


From d74538c6bebb4000a397da14a19ba7d3549c59c6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 62/74] fix: names given as parts of strings were read beyond
 the end of their string views

---
 include/fiction/io/write_defect_influence_domain.hpp | 3 ++-
 include/fiction/layouts/clocked_layout.hpp           | 3 ++-
 include/fiction/utils/name_utils.hpp                 | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fiction/io/write_defect_influence_domain.hpp b/include/fiction/io/write_defect_influence_domain.hpp
index b41353d..349d7ca 100644
--- a/include/fiction/io/write_defect_influence_domain.hpp
+++ b/include/fiction/io/write_defect_influence_domain.hpp
@@ -10,6 +10,7 @@
 
 #include <fstream>
 #include <ostream>
+#include <string>
 #include <string_view>
 
 namespace fiction
@@ -78,7 +79,7 @@ template <typename Lyt>
 void write_defect_influence_domain(const defect_influence_domain<Lyt>& defect_infdom, const std::string_view& filename,
                                    const write_defect_influence_domain_params& params = {})
 {
-    std::ofstream os{filename.data(), std::ofstream::out};
+    std::ofstream os{std::string{filename}, std::ofstream::out};
 
     if (!os.is_open())
     {
diff --git a/include/fiction/layouts/clocked_layout.hpp b/include/fiction/layouts/clocked_layout.hpp
index 92c421d..56b2a93 100644
--- a/include/fiction/layouts/clocked_layout.hpp
+++ b/include/fiction/layouts/clocked_layout.hpp
@@ -15,6 +15,7 @@
 #include <functional>
 #include <iterator>
 #include <memory>
+#include <string>
 #include <string_view>
 #include <utility>
 #include <vector>
@@ -179,7 +180,7 @@ class clocked_layout : public CoordinateLayout
      */
     [[nodiscard]] bool is_clocking_scheme(const std::string_view& name) const noexcept
     {
-        return *strg->clocking == name.data();
+        return *strg->clocking == std::string{name};
     }
     /**
      * Returns a copy of the stored clocking scheme object.
diff --git a/include/fiction/utils/name_utils.hpp b/include/fiction/utils/name_utils.hpp
index e081bab..bcafa6d 100644
--- a/include/fiction/utils/name_utils.hpp
+++ b/include/fiction/utils/name_utils.hpp
@@ -51,11 +51,11 @@ void set_name(NtkOrLyt& ntk_or_lyt, const std::string_view& name) noexcept
 {
     if constexpr (mockturtle::has_set_network_name_v<NtkOrLyt>)
     {
-        return ntk_or_lyt.set_network_name(name.data());
+        return ntk_or_lyt.set_network_name(std::string{name});
     }
     else if constexpr (fiction::has_set_layout_name_v<NtkOrLyt>)
     {
-        return ntk_or_lyt.set_layout_name(name.data());
+        return ntk_or_lyt.set_layout_name(std::string{name});
     }
 }
 /**
-- 
2.43.0


From 3e06a8df64a168aee54c5a7608f7f307bd04d65c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 63/74] fix: tile-based SVG drawings dropped the cells of
 synchronization elements

---
 include/fiction/io/write_svg_layout.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/write_svg_layout.hpp b/include/fiction/io/write_svg_layout.hpp
index f5fd261..60beea4 100644
--- a/include/fiction/io/write_svg_layout.hpp
+++ b/include/fiction/io/write_svg_layout.hpp
@@ -1051,7 +1051,7 @@ class write_qca_layout_svg_impl
 
         // Capture only references that are actually used
         lyt.foreach_cell_position(
-            [this, &coord_to_tile, &coord_to_cells, &coord_to_latch_cells](const auto& c)
+            [this, &coord_to_tile, &coord_to_cells, &coord_to_latch_tile, &coord_to_latch_cells](const auto& c)
             {
                 const auto clock_zone = lyt.get_clock_number(c);
                 const auto tile_coords =
@@ -1071,6 +1071,12 @@ class write_qca_layout_svg_impl
                         {
                             current_cells = latch_it->second;
                         }
+                        else
+                        {
+                            // If this is called, then there is no latch tile for the current cell yet
+                            coord_to_latch_tile[tile_coords] = {svg::LATCH, clock_zone,
+                                                                static_cast<uint32_t>(latch_delay)};
+                        }
                         is_sync_elem = true;
                     }
                 }
@@ -1160,7 +1166,7 @@ class write_qca_layout_svg_impl
             for (const auto& [coord, ldscr] : coord_to_latch_tile)
             {
                 const auto [descr, czone_up, latch_delay] = ldscr;
-                const auto czone_lo                       = czone_up + (latch_delay % lyt.num_clocks());
+                const auto czone_lo                       = (czone_up + latch_delay) % lyt.num_clocks();
 
                 const auto cell_descriptions = coord_to_latch_cells[coord];
 
-- 
2.43.0


From a91406a2d18614d0ae4c0f3bd45a486806c15766 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 64/74] fix: pins on the right border of layouts that do not
 start at x = 0 were refused as non-border pins

---
 include/fiction/io/write_qcc_layout.hpp | 2 +-
 include/fiction/io/write_qll_layout.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/write_qcc_layout.hpp b/include/fiction/io/write_qcc_layout.hpp
index a4e813a..3a50e08 100644
--- a/include/fiction/io/write_qcc_layout.hpp
+++ b/include/fiction/io/write_qcc_layout.hpp
@@ -186,7 +186,7 @@ class write_qcc_layout_impl
         lyt.foreach_po(
             [this, &all_border_pins](const auto& po)
             {
-                if (bb_x(po) != lyt.x())
+                if (bb_x(po) != bb.get_x_size())
                 {
                     all_border_pins = false;
                     return false;  // break iteration
diff --git a/include/fiction/io/write_qll_layout.hpp b/include/fiction/io/write_qll_layout.hpp
index 85bdd64..7cbcf4f 100644
--- a/include/fiction/io/write_qll_layout.hpp
+++ b/include/fiction/io/write_qll_layout.hpp
@@ -205,7 +205,7 @@ class write_qll_layout_impl
         lyt.foreach_po(
             [this, &all_border_pins](const auto& po)
             {
-                if (bb_x(po) != lyt.x())
+                if (bb_x(po) != bb.get_x_size())
                 {
                     all_border_pins = false;
                     return false;  // break iteration
-- 
2.43.0


From 88d5bd967bb783d5de68aaca7fc9775e5b095cd2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 65/74] fix: I/O pins of QCA layouts were written to other
 layers than the cells they belong to in QLL files

---
 include/fiction/io/write_qll_layout.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fiction/io/write_qll_layout.hpp b/include/fiction/io/write_qll_layout.hpp
index 7cbcf4f..33422b8 100644
--- a/include/fiction/io/write_qll_layout.hpp
+++ b/include/fiction/io/write_qll_layout.hpp
@@ -263,13 +263,18 @@ class write_qll_layout_impl
 
     void write_pins()
     {
+        // QCA and molecular QCA layers are written with a layer for vertical cells in between
+        static constexpr const auto layer_scale = has_inml_technology_v<Lyt> ? 1 : 2;
+
         for (const auto& pi : sorted_pi_list)
         {
-            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(pi), 0, cell_id++, bb_x(pi), bb_y(pi), pi.z);
+            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(pi), 0, cell_id++, bb_x(pi), bb_y(pi),
+                              pi.z * layer_scale);
         }
         for (const auto& po : sorted_po_list)
         {
-            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(po), 1, cell_id++, bb_x(po), bb_y(po), po.z);
+            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(po), 1, cell_id++, bb_x(po), bb_y(po),
+                              po.z * layer_scale);
         }
     }
 
-- 
2.43.0


From 89df273d5442c3d52a41c6afd379bed2a9ece58b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 66/74] fix: names with XML special characters made QLL and QCC
 files malformed

---
 include/fiction/io/write_qcc_layout.hpp | 12 +++++---
 include/fiction/io/write_qll_layout.hpp |  9 +++---
 include/fiction/utils/xml_utils.hpp     | 37 +++++++++++++++++++++++++
 3 files changed, 50 insertions(+), 8 deletions(-)
 create mode 100644 include/fiction/utils/xml_utils.hpp

diff --git a/include/fiction/io/write_qcc_layout.hpp b/include/fiction/io/write_qcc_layout.hpp
index 3a50e08..a9b6d8b 100644
--- a/include/fiction/io/write_qcc_layout.hpp
+++ b/include/fiction/io/write_qcc_layout.hpp
@@ -11,6 +11,7 @@
 #include "fiction/traits.hpp"
 #include "fiction/types.hpp"
 #include "fiction/utils/version_info.hpp"
+#include "fiction/utils/xml_utils.hpp"
 
 #include <fmt/format.h>
 
@@ -236,8 +237,9 @@ class write_qcc_layout_impl
     {
         os << fmt::format(qcc::VERSION_HEADER, FICTION_VERSION, FICTION_REPO);
         os << fmt::format(qcc::OPEN_QCA_COMPONENT, tech_impl_name<technology<Lyt>>, qcc::LIBRARY_NAME,
-                          ps.use_filename_as_component_name ? std::filesystem::path{ps.filename}.stem().string() :
-                                                              lyt.get_layout_name(),
+                          escape_xml_attribute(ps.use_filename_as_component_name ?
+                                                   std::filesystem::path{ps.filename}.stem().string() :
+                                                   lyt.get_layout_name()),
                           generate_layout_id_hash(), bb.get_x_size(), bb.get_y_size(), num_magnets);
     }
 
@@ -247,11 +249,13 @@ class write_qcc_layout_impl
 
         for (const auto& pi : sorted_pi_list)
         {
-            os << fmt::format(qcc::PIN, tech_impl_name<technology<Lyt>>, lyt.get_cell_name(pi), 0, bb_x(pi), bb_y(pi));
+            os << fmt::format(qcc::PIN, tech_impl_name<technology<Lyt>>, escape_xml_attribute(lyt.get_cell_name(pi)),
+                              0, bb_x(pi), bb_y(pi));
         }
         for (const auto& po : sorted_po_list)
         {
-            os << fmt::format(qcc::PIN, tech_impl_name<technology<Lyt>>, lyt.get_cell_name(po), 1, bb_x(po), bb_y(po));
+            os << fmt::format(qcc::PIN, tech_impl_name<technology<Lyt>>, escape_xml_attribute(lyt.get_cell_name(po)),
+                              1, bb_x(po), bb_y(po));
         }
         os << qcc::CLOSE_ENTITY;
     }
diff --git a/include/fiction/io/write_qll_layout.hpp b/include/fiction/io/write_qll_layout.hpp
index 33422b8..cca6639 100644
--- a/include/fiction/io/write_qll_layout.hpp
+++ b/include/fiction/io/write_qll_layout.hpp
@@ -9,6 +9,7 @@
 #include "fiction/technology/cell_technologies.hpp"
 #include "fiction/traits.hpp"
 #include "fiction/utils/version_info.hpp"
+#include "fiction/utils/xml_utils.hpp"
 
 #include <fmt/format.h>
 
@@ -268,13 +269,13 @@ class write_qll_layout_impl
 
         for (const auto& pi : sorted_pi_list)
         {
-            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(pi), 0, cell_id++, bb_x(pi), bb_y(pi),
-                              pi.z * layer_scale);
+            os << fmt::format(qll::PIN, tech_name, escape_xml_attribute(lyt.get_cell_name(pi)), 0, cell_id++,
+                              bb_x(pi), bb_y(pi), pi.z * layer_scale);
         }
         for (const auto& po : sorted_po_list)
         {
-            os << fmt::format(qll::PIN, tech_name, lyt.get_cell_name(po), 1, cell_id++, bb_x(po), bb_y(po),
-                              po.z * layer_scale);
+            os << fmt::format(qll::PIN, tech_name, escape_xml_attribute(lyt.get_cell_name(po)), 1, cell_id++,
+                              bb_x(po), bb_y(po), po.z * layer_scale);
         }
     }
 
diff --git a/include/fiction/utils/xml_utils.hpp b/include/fiction/utils/xml_utils.hpp
new file mode 100644
index 0000000..0c76376
--- /dev/null
+++ b/include/fiction/utils/xml_utils.hpp
@@ -0,0 +1,37 @@
+#ifndef FICTION_XML_UTILS_HPP
+#define FICTION_XML_UTILS_HPP
+
+#include <string>
+
+namespace fiction
+{
+
+/**
+ * Replaces the characters that have a special meaning in XML attribute values by the respective entities.
+ *
+ * @param text Text to escape.
+ * @return `text` with all occurrences of `&`, `<`, `>`, and `"` being replaced.
+ */
+[[nodiscard]] inline std::string escape_xml_attribute(const std::string& text)
+{
+    std::string escaped{};
+    escaped.reserve(text.size());
+
+    for (const auto c : text)
+    {
+        switch (c)
+        {
+            case '&': escaped += "&amp;"; break;
+            case '<': escaped += "&lt;"; break;
+            case '>': escaped += "&gt;"; break;
+            case '"': escaped += "&quot;"; break;
+            default: escaped += c;
+        }
+    }
+
+    return escaped;
+}
+
+}  // namespace fiction
+
+#endif  // FICTION_XML_UTILS_HPP
-- 
2.43.0


From 5c8efd154cde37d694271818abca3933ab295d90 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:08:29 +0000
Subject: [PATCH 67/74] fix: chains of four inverters were counted as five
 magnets instead of as a single one

---
 include/fiction/technology/magcad_magnet_count.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fiction/technology/magcad_magnet_count.hpp b/include/fiction/technology/magcad_magnet_count.hpp
index 78bf58d..0beee1f 100644
--- a/include/fiction/technology/magcad_magnet_count.hpp
+++ b/include/fiction/technology/magcad_magnet_count.hpp
@@ -39,7 +39,8 @@ uint64_t magcad_magnet_count(const Lyt& lyt) noexcept
             }
         });
 
-    return lyt.num_cells() + (num_inv_cells / 4);
+    // each chain of 4 inverters contributes 1 instead of 4 magnets
+    return lyt.num_cells() - (3 * (num_inv_cells / 4));
 }
 
 }  // namespace fiction
-- 
2.43.0


From 7b171488b013926d92c221a77c1611f80d581ad8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:58:29 +0000
Subject: [PATCH 68/74] fix: graph-oriented layout design randomizes skipped
 tiles by the given seed and parameters

The random number generator and the distribution were static per thread and
kept the seed and the number of tiles of the first call in that thread.
---
 .../graph_oriented_layout_design.hpp          | 44 +++++++------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index ea67f70..ddf8c71 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -502,6 +502,10 @@ struct search_space_graph
      */
     graph_oriented_layout_design_params::cost_objective cost =
         graph_oriented_layout_design_params::cost_objective::AREA;
+    /**
+     * Random number generator used to randomize the number of tiles to skip between PIs in this search space graph.
+     */
+    std::mt19937 rng{};
 };
 /**
  * @brief Custom view class derived from mockturtle::topo_view.
@@ -1111,29 +1115,6 @@ class graph_oriented_layout_design_impl
      * Thread pool for multithreaded execution to avoid thread creation overhead.
      */
     mutable std::vector<std::future<std::optional<Lyt>>> futures_pool{};
-    /**
-     * Get thread-local random number generator for `tiles_to_skip_between_pis` randomization.
-     * Each thread will have its own RNG to avoid mutex contention.
-     *
-     * @return Reference to a thread-local Mersenne Twister random number generator.
-     */
-    [[nodiscard]] std::mt19937& get_thread_local_rng() const
-    {
-        thread_local std::mt19937 rng{seed};
-        return rng;
-    }
-    /**
-     * Get thread-local distribution for generating random `tiles_to_skip_between_pis` values.
-     *
-     * @return Reference to a thread-local uniform integer distribution for generating random skip values.
-     */
-    [[nodiscard]] std::uniform_int_distribution<uint64_t>& get_thread_local_dist() const
-    {
-        // Handle edge case where tiles_to_skip_between_pis is 0
-        const auto min_val = ps.tiles_to_skip_between_pis > 0 ? ps.tiles_to_skip_between_pis - 1 : 0;
-        thread_local std::uniform_int_distribution<uint64_t> dist{min_val, ps.tiles_to_skip_between_pis};
-        return dist;
-    }
     /**
      * Determines the number of search space graphs to generate based on the selected effort mode and cost objective.
      *
@@ -1235,10 +1216,12 @@ class graph_oriented_layout_design_impl
      * @param layout The layout in which to find the possible positions for PIs.
      * @param pi_locs Struct indicating if PIs are allowed at the top or left side of the layout.
      * @param num_expansions The maximum number of positions to be returned (is doubled for PIs).
+     * @param rng Random number generator for the number of tiles to skip between PIs.
      * @return A vector of tiles representing the possible positions for PIs.
      */
     [[nodiscard]] coord_vec_type<ObstrLyt> get_possible_positions_pis(ObstrLyt& layout, const pi_locations& pi_locs,
-                                                                      const uint64_t num_expansions) noexcept
+                                                                      const uint64_t num_expansions,
+                                                                      std::mt19937&  rng) noexcept
     {
         uint64_t count_expansions = 0ul;
 
@@ -1250,8 +1233,9 @@ class graph_oriented_layout_design_impl
         {
             if (ps.randomize_tiles_to_skip_between_pis)
             {
-                // generate random skip_tiles for each PI placement using thread-local RNG
-                skip_tiles = get_thread_local_dist()(get_thread_local_rng());
+                // generate random skip_tiles for each PI placement
+                const auto min_val = ps.tiles_to_skip_between_pis > 0 ? ps.tiles_to_skip_between_pis - 1 : 0;
+                skip_tiles = std::uniform_int_distribution<uint64_t>{min_val, ps.tiles_to_skip_between_pis}(rng);
             }
             else
             {
@@ -1559,15 +1543,15 @@ class graph_oriented_layout_design_impl
      * @param ssg The search space graph.
      * @return A vector of tiles representing the possible positions for the current node.
      */
-    [[nodiscard]] coord_vec_type<ObstrLyt> get_possible_positions(ObstrLyt&                           layout,
-                                                                  const search_space_graph<ObstrLyt>& ssg,
+    [[nodiscard]] coord_vec_type<ObstrLyt> get_possible_positions(ObstrLyt&                       layout,
+                                                                  search_space_graph<ObstrLyt>&   ssg,
                                                                   const placement_info<ObstrLyt>& place_info) noexcept
     {
         const auto fc = fanins(ssg.network, ssg.nodes_to_place[place_info.current_node]);
 
         if (ssg.network.is_pi(ssg.nodes_to_place[place_info.current_node]))
         {
-            return get_possible_positions_pis(layout, ssg.pi_locs, ssg.network.num_pis());
+            return get_possible_positions_pis(layout, ssg.pi_locs, ssg.network.num_pis(), ssg.rng);
         }
         if (ssg.network.is_po(ssg.nodes_to_place[place_info.current_node]))
         {
@@ -2202,6 +2186,8 @@ class graph_oriented_layout_design_impl
             ++idx;  // move to next pattern element
 
             graph.cost_so_far[graph.current_vertex] = 0;
+
+            graph.rng.seed(seed);
         }
     }
     /**
-- 
2.43.0


From d6debbfba649c85fd76b3e1b2b5c2a5fb6e297bc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:01:38 +0000
Subject: [PATCH 69/74] fix: graph-oriented layout design returns the layout
 its statistics describe

With several threads and return_first, the layout of the first thread was
returned although another thread had replaced it and updated the statistics.
---
 .../physical_design/graph_oriented_layout_design.hpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index ddf8c71..c057cd8 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -875,7 +875,7 @@ class graph_oriented_layout_design_impl
                         {
                             if (f.wait_for(std::chrono::milliseconds{0}) == std::future_status::ready)
                             {
-                                if (auto r = f.get())
+                                if (f.get())
                                 {
                                     // cancel remaining futures if return_first is enabled
                                     if (ps.return_first)
@@ -888,7 +888,8 @@ class graph_oriented_layout_design_impl
                                             }
                                         }
                                     }
-                                    return *r;  // return immediately when first result is ready
+                                    // the other threads may have found a better layout, which the statistics describe
+                                    return best_lyt;
                                 }
                             }
                             else
-- 
2.43.0


From c4bab5201fd6de1dd0c9f944cd2d35ba7d34cb4f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:01:38 +0000
Subject: [PATCH 70/74] fix: exact physical design multiplies the default upper
 bounds without overflow

65535 * 65535 was computed as int, which is undefined behaviour.
---
 include/fiction/algorithms/physical_design/exact.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/exact.hpp b/include/fiction/algorithms/physical_design/exact.hpp
index baedbd9..8e3d03d 100644
--- a/include/fiction/algorithms/physical_design/exact.hpp
+++ b/include/fiction/algorithms/physical_design/exact.hpp
@@ -195,7 +195,7 @@ class exact_impl
         // NOLINTNEXTLINE(*-prefer-member-initializer)
         ari = aspect_ratio_iterator<typename Lyt::aspect_ratio>{
             ps.fixed_size ? std::min(static_cast<uint64_t>(ps.upper_bound_area),
-                                     static_cast<uint64_t>(ps.upper_bound_x * ps.upper_bound_y)) :
+                                     static_cast<uint64_t>(ps.upper_bound_x) * static_cast<uint64_t>(ps.upper_bound_y)) :
                             static_cast<uint64_t>(lower_bound)};
     }
 
@@ -3095,7 +3095,7 @@ class exact_impl
         smt_handler handler{std::make_shared<z3::context>(), layout, *ntk, ps, black_list};
 
         const auto upper_bound = std::min(static_cast<uint64_t>(ps.upper_bound_area),
-                                          static_cast<uint64_t>(ps.upper_bound_x * ps.upper_bound_y));
+                                          static_cast<uint64_t>(ps.upper_bound_x) * static_cast<uint64_t>(ps.upper_bound_y));
 
         for (; ari <= upper_bound; ++ari)  // <= to prevent overflow
         {
-- 
2.43.0


From 7b4dc8ca4a9fa32668c72718d769979e53d997d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:29:07 +0000
Subject: [PATCH 71/74] fix: edge intersection graphs missed intersections of
 paths enumerated with a path limit

---
 .../graph/generate_edge_intersection_graph.hpp         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp b/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp
index 31ea0e4..8cb9582 100644
--- a/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp
+++ b/include/fiction/algorithms/graph/generate_edge_intersection_graph.hpp
@@ -186,6 +186,15 @@ class generate_edge_intersection_graph_impl
             path_elements.insert(c);
             layout_coordinate_path<Lyt>::append(c);
         }
+        /**
+         * Stores all coordinates of the path in the lookup set. This is necessary for paths that were not (entirely)
+         * created via append, e.g., those that were concatenated from others.
+         */
+        void update_lookup() noexcept
+        {
+            path_elements.clear();
+            path_elements.insert(this->cbegin(), this->cend());
+        }
         /**
          * Given another path, this function checks if they are not disjoint, i.e., it looks for at least one coordinate
          * that both paths share.
@@ -280,6 +289,7 @@ class generate_edge_intersection_graph_impl
                               [this, &clique](auto& p)
                               {
                                   p.label = node_id++;
+                                  p.update_lookup();
                                   graph.insert_vertex(p.label, p);
                                   clique.push_back(p.label);
                               });
-- 
2.43.0


From 0cec7965978aaa8d23eed7d4a94ca49a93a28166 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:29:07 +0000
Subject: [PATCH 72/74] fix: determine_clocking refused layouts with
 crossing-layer wires above empty tiles

---
 .../algorithms/physical_design/determine_clocking.hpp       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/algorithms/physical_design/determine_clocking.hpp b/include/fiction/algorithms/physical_design/determine_clocking.hpp
index 1667edc..65a1caf 100644
--- a/include/fiction/algorithms/physical_design/determine_clocking.hpp
+++ b/include/fiction/algorithms/physical_design/determine_clocking.hpp
@@ -253,6 +253,12 @@ class sat_clocking_handler
                 // fetch corresponding tile in ground layer
                 const auto ground_t = layout.below(t);
 
+                // wires above empty tiles have no counterpart
+                if (layout.is_empty_tile(ground_t))
+                {
+                    return;
+                }
+
                 // for each possible clock number
                 for (typename Lyt::clock_number_t clk = 0; clk < number_of_clocks; ++clk)
                 {
-- 
2.43.0


From d74f6fcd1b8562732d95690fc1d277e19ff5b226 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:29:33 +0000
Subject: [PATCH 73/74] fix: gate-level layouts ignored the return value of
 functions applied to each fanout

---
 include/fiction/layouts/gate_level_layout.hpp | 34 +++++++------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 8190e27..d4ef2a8 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -1161,19 +1161,14 @@ class gate_level_layout : public ClockedLayout
      * neighboring tiles.
      *
      * @tparam Fn Functor type that has to comply with the restrictions imposed by
-     * `mockturtle::foreach_element_transform`.
+     * `mockturtle::foreach_element`.
      * @tparam RespectClocking Flag to indicate that the underlying clocking is to be respected when evaluating fanouts.
      * @param n Node whose fanouts are desired.
      * @param fn Functor to apply to each of `n`'s fanouts.
      */
-    // fn is captured by reference into fanout_collector, which may be invoked up to three times below (once per
-    // adjacent tile); it is forwarded on each of those calls
     template <typename Fn, bool RespectClocking = true>
-    // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
     void foreach_fanout(const node n, Fn&& fn) const
     {
-        // `fn` is captured by reference into nested lambdas invoked zero to several times (once per fanout tile); it
-        // is forwarded exactly once at its actual call site further down, not at this outer parameter.
         if (n <= 1)
         {  // const-0 or const-1
             return;
@@ -1181,35 +1176,28 @@ class gate_level_layout : public ClockedLayout
 
         const auto nt = get_tile(n);
 
-        auto fanout_collector = [this, &fn, &nt](const auto& out_t)
-        {
-            const auto apply_functor = [this, &fn](const auto& parent_t)
-            {
-                const auto parent_index = node_to_index(parent_t);
-                auto       parents      = mockturtle::range(parent_index, parent_index + 1);
-                using iterator_type     = decltype(parents.begin());
-                mockturtle::detail::foreach_element_transform<iterator_type, node>(
-                    parents.begin(), parents.end(), [this](const auto& p) -> node { return index_to_node(p); },
-                    std::forward<Fn>(fn));
-            };
+        // gather the fanouts first such that `fn` is able to terminate the iteration and receives proper indices
+        std::vector<node> fanouts{};
 
-            const auto apply_if_parent = [this, &nt, &apply_functor](const auto& adj_t)
+        auto fanout_collector = [this, &fanouts, &nt](const auto& out_t)
+        {
+            const auto collect_if_parent = [this, &fanouts, &nt](const auto& adj_t)
             {
                 if (const auto adj_n = get_node(adj_t); is_child(adj_n, static_cast<signal>(nt)))
                 {
-                    apply_functor(adj_n);
+                    fanouts.push_back(adj_n);
                 }
             };
 
-            apply_if_parent(out_t);
+            collect_if_parent(out_t);
 
             if (const auto above_t = ClockedLayout::above(out_t); above_t != out_t)
             {
-                apply_if_parent(above_t);
+                collect_if_parent(above_t);
             }
             if (const auto below_t = ClockedLayout::below(out_t); below_t != out_t)
             {
-                apply_if_parent(below_t);
+                collect_if_parent(below_t);
             }
         };
 
@@ -1221,6 +1209,8 @@ class gate_level_layout : public ClockedLayout
         {
             ClockedLayout::foreach_adjacent_coordinate(nt, std::move(fanout_collector));
         }
+
+        mockturtle::detail::foreach_element(fanouts.cbegin(), fanouts.cend(), std::forward<Fn>(fn));
     }
     /**
      * Returns a container that contains all tiles that accept information from the given one. Thereby,
-- 
2.43.0


From 6c508c48e94b36e06e6901bfe67def38cce922a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:57:39 +0000
Subject: [PATCH 74/74] fix: truth table reader read past the end of empty
 files

---
 include/fiction/io/tt_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/io/tt_reader.hpp b/include/fiction/io/tt_reader.hpp
index 6361a5f..83e3c74 100644
--- a/include/fiction/io/tt_reader.hpp
+++ b/include/fiction/io/tt_reader.hpp
@@ -58,7 +58,7 @@ class tt_reader
      */
     std::optional<TT> next()
     {
-        if (pos >= elements.size() - 1)
+        if (pos + 1 >= elements.size())
         {
             return std::nullopt;
         }
-- 
2.43.0

