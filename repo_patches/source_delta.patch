From 3b410df84ab0cbbfdf8d16e54a874bb293c6a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 01/11] fix: heuristic must not accept a greedy result that
 reached the cutoff

With epsilon 0 a discarded greedy run (returned cost equal to the cutoff) was
taken as an improved solution, whose columns do not have the reported cost.
---
 src/subgradient/Subgradient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subgradient/Subgradient.hpp b/src/subgradient/Subgradient.hpp
index 395dd0d..7824080 100644
--- a/src/subgradient/Subgradient.hpp
+++ b/src/subgradient/Subgradient.hpp
@@ -144,7 +144,7 @@ public:
             greedy_sol.idxs.clear();
             greedy_sol.cost = greedy(core_inst, lagr_mult, reduced_costs, greedy_sol.idxs, cutoff);
             print<5>(env, "HEUR> {:4}: Greedy solution {:.2f}\n", iter, best_sol.cost);
-            if (greedy_sol.cost <= best_sol.cost - env.epsilon) {
+            if (greedy_sol.cost < cutoff && greedy_sol.cost <= best_sol.cost - env.epsilon) {
                 best_sol = greedy_sol;
                 print<4>(env, "HEUR> {:4}: Improved solution {:.2f}\n", iter, best_sol.cost);
                 CFT_IF_DEBUG(check_inst_solution(core_inst, best_sol));
-- 
2.43.0


From b59ba966b083a9952d53f26db9768488e4e72ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:00 +0000
Subject: [PATCH 02/11] fix: step size assertion must not fail when all lower
 bounds are zero

Instances whose optimum is zero give 0/0 here, and NaN >= 0 aborted debug builds.
---
 src/subgradient/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subgradient/utils.hpp b/src/subgradient/utils.hpp
index 402ad2e..a82f7c2 100644
--- a/src/subgradient/utils.hpp
+++ b/src/subgradient/utils.hpp
@@ -38,7 +38,7 @@ namespace cft { namespace local { namespace {
             if (iter == next_update_iter) {
                 next_update_iter += period;
                 real_t diff = (max_lower_bound - min_lower_bound) / abs(max_lower_bound);
-                assert(diff >= 0.0_F && "Negative difference in lower bounds");
+                assert(min_lower_bound <= max_lower_bound && "Negative difference in lower bounds");
                 if (diff > 0.01_F)
                     curr_step_size /= 2.0_F;
                 if (diff <= 0.001_F)
-- 
2.43.0


From cd113ed3e48424e7083d81fd281400c0e4fb9dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 03/11] fix: greedy must drop the columns already removed when
 none is left to enumerate

The early exit skipped the removal when the heuristic removal emptied the
redundancy set, so the selection kept columns its cost did not include.
---
 src/greedy/Greedy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greedy/Greedy.hpp b/src/greedy/Greedy.hpp
index 0143a82..db0a281 100644
--- a/src/greedy/Greedy.hpp
+++ b/src/greedy/Greedy.hpp
@@ -120,10 +120,11 @@ private:
     }
 
     static bool _try_early_exit(RedundancyData& redund_info, std::vector<cidx_t>& sol) {
-        if (redund_info.partial_cost >= redund_info.best_cost || redund_info.redund_set.empty())
+        if (redund_info.partial_cost >= redund_info.best_cost)
             return true;  // Partial solution already worse than best cost
 
-        if (redund_info.partial_cov_count < rsize(redund_info.partial_cover))
+        if (!redund_info.redund_set.empty() &&
+            redund_info.partial_cov_count < rsize(redund_info.partial_cover))
             return false;  // Partial cover not completed yet, continue
 
         // Otherwise complete the solution removing redundant columns
-- 
2.43.0


From 487d8a508a7ff690cb16c07e45aa20e97347f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:35 +0000
Subject: [PATCH 04/11] fix: reset the fixing data when refinement fixes no
 column

The instance was restored to the original one but the fixing data of the
previous iteration was kept, so a better solution found then was translated
with stale maps (wrong columns, wrong cost, possibly endless refinement).
---
 src/algorithms/Refinement.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/Refinement.hpp b/src/algorithms/Refinement.hpp
index 7997b70..1320564 100644
--- a/src/algorithms/Refinement.hpp
+++ b/src/algorithms/Refinement.hpp
@@ -128,10 +128,9 @@ inline CftResult run(Environment const& env,                // in
 
         inst             = orig_inst;
         auto cols_to_fix = select_cols_to_fix(env, inst, nofix_dual.mults, best_sol);
-        if (!cols_to_fix.empty()) {
-            make_identity_fixing_data(ncols, nrows, fixing);
+        make_identity_fixing_data(ncols, nrows, fixing);  // inst is not fixed anymore
+        if (!cols_to_fix.empty())
             fix_columns_and_compute_maps(cols_to_fix, inst, fixing, old2new);
-        }
         real_t nrows_real = as_real(rsize(orig_inst.rows));
         real_t free_perc  = as_real(rsize(inst.rows)) * 100.0_F / nrows_real;
         print<2>(env,
-- 
2.43.0


From a90a98f3c198eb9ad00af7b5d223d903cb773abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 05/11] fix: rtrim of a string made only of spaces read past
 its end

---
 src/utils/parse_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 85eb441..44a26c6 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -41,6 +41,8 @@ inline StringView rtrim(StringView str) {
     if (str.empty())
         return str;
     size_t suffix = str.find_last_true(NotSpace{});
+    if (suffix == str.size())  // Only spaces
+        return str.remove_suffix(0);
     return str.remove_suffix(suffix + 1);
 }
 
-- 
2.43.0


From 0ed2d84beb3d28d4561dd9e0c4f4b8eac017e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 06/11] fix: RAIL parser accepted row indices below one

---
 src/core/parsing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index de38c82..cdea034 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -126,7 +126,7 @@ inline Instance parse_rail_instance(std::string const& path) {
 
         for (ridx_t n = 0_R; n < j_nrows; n++) {
             inst.cols.idxs.push_back(string_to<ridx_t>::parse(tokens[n]) - 1_R);
-            if (inst.cols.idxs.back() >= num.rows)
+            if (inst.cols.idxs.back() < 0_R || inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a RAIL instance?");
         }
         inst.cols.begs.push_back(csize(inst.cols.idxs));
-- 
2.43.0


From 44e6aab795c683dd80394221e26b0eed329ce065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 07/11] fix: CVRP parser accepted negative row indices and out
 of range solution columns

---
 src/core/parsing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index cdea034..396ec64 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -157,7 +157,7 @@ inline FileData parse_cvrp_instance(std::string const& path) {
 
         while (!line_view.empty()) {
             fdata.inst.cols.idxs.push_back(string_to<ridx_t>::consume(line_view));
-            if (fdata.inst.cols.idxs.back() >= num.rows)
+            if (fdata.inst.cols.idxs.back() < 0_R || fdata.inst.cols.idxs.back() >= num.rows)
                 throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         }
         fdata.inst.cols.begs.push_back(csize(fdata.inst.cols.idxs));
@@ -166,6 +166,8 @@ inline FileData parse_cvrp_instance(std::string const& path) {
     line_view = file_iter.next();
     while (!line_view.empty()) {
         cidx_t j = string_to<cidx_t>::consume(line_view);
+        if (j < 0_C || j >= num.cols)
+            throw std::invalid_argument("Invalid file format: not a CVRP instance?");
         fdata.init_sol.idxs.push_back(j);
         fdata.init_sol.cost += fdata.inst.costs[j];
     }
-- 
2.43.0


From 02d1a97e29dff609d5bc99138ab39d296cd1421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 08/11] fix: MPS parser looped forever on truncated files and
 accepted unknown rows and missing fields

---
 src/core/parsing.hpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/core/parsing.hpp b/src/core/parsing.hpp
index 396ec64..fff073e 100644
--- a/src/core/parsing.hpp
+++ b/src/core/parsing.hpp
@@ -194,17 +194,28 @@ inline Instance parse_mps_instance(std::string const& path) {
     auto   obj_name = std::string();
     while (line_view != "COLUMNS") {
         auto tokens = split(line_view);
-        if (!tokens.empty() && tokens[0] == "N")
-            obj_name = tokens[1].to_cpp_string();
-        if (!tokens.empty() && (tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L"))
-            rows_map[tokens[1].to_cpp_string()] = nrows++;
+        if (!tokens.empty() && (tokens[0] == "N" || tokens[0] == "G" || tokens[0] == "E" || tokens[0] == "L")) {
+            if (tokens.size() < 2)
+                throw std::invalid_argument("Invalid file format: MPS row without a name.");
+            if (tokens[0] == "N")
+                obj_name = tokens[1].to_cpp_string();
+            else if (nrows == limits<ridx_t>::max())
+                throw std::out_of_range("Too many rows in the MPS instance.");
+            else
+                rows_map[tokens[1].to_cpp_string()] = nrows++;
+        }
         line_view = file_iter.next();
+        if (!file_iter.in)
+            throw std::invalid_argument("Invalid file format: MPS instance without COLUMNS.");
     }
 
     auto prev_col_name = std::string();
     line_view          = file_iter.next();
     inst.cols.begs.clear();
     while (line_view != "RHS") {
+        if (!file_iter.in)
+            throw std::invalid_argument("Invalid file format: MPS instance without RHS.");
+
         auto tokens = split(line_view);
         // Best effort to detect columns header line
         if (tokens.size() < 3 || (std::isdigit(tokens[2][0]) == 0 && tokens[2][0] != '-')) {
@@ -218,14 +229,18 @@ inline Instance parse_mps_instance(std::string const& path) {
             inst.costs.push_back(limits<real_t>::max());
         }
 
+        if (tokens.size() % 2 == 0)
+            throw std::invalid_argument("Invalid file format: MPS entry without a value.");
+
         for (size_t t = 1; t < tokens.size(); t += 2) {
             if (tokens[t] == obj_name)
                 inst.costs.back() = string_to<real_t>::parse(tokens[t + 1]);
             else {
-                auto row_name = tokens[t];
-                assert(rows_map.find(row_name.to_cpp_string()) != rows_map.end());
+                auto row = rows_map.find(tokens[t].to_cpp_string());
+                if (row == rows_map.end())
+                    throw std::invalid_argument("Invalid file format: unknown MPS row.");
                 assert(tokens[t + 1] == "1" || tokens[t + 1] == "-1");
-                inst.cols.idxs.push_back(rows_map[row_name.to_cpp_string()]);
+                inst.cols.idxs.push_back(row->second);
             }
         }
 
-- 
2.43.0


From c6434f8b7ccae06b65923fba233d31ff5643eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 09/11] fix: reading past the end of a file returned its last
 line again and again

---
 src/utils/parse_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 44a26c6..9a5a90d 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -133,7 +133,8 @@ struct FileLineIterator {
     }
 
     StringView next() {
-        std::getline(in, line);
+        if (!std::getline(in, line))
+            line.clear();  // Otherwise the last line would be returned again
         return trim(StringView(line));
     }
 };
-- 
2.43.0


From f5d5ba0d4553ecbee7192b68fd17e98e32fd2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 10/11] fix: the largest floating point values could not be
 read back

---
 src/utils/parse_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/parse_utils.hpp b/src/utils/parse_utils.hpp
index 9a5a90d..28792bb 100644
--- a/src/utils/parse_utils.hpp
+++ b/src/utils/parse_utils.hpp
@@ -73,7 +73,7 @@ struct string_to {
 
     using safe_type = if_t<std::is_integral<val_t>::value,
                            if_t<std::is_signed<val_t>::value, int64_t, uint64_t>,
-                           long double>;
+                           val_t>;
 
     // Parse without modifying the string view  (note the pass by value)
     static T parse(StringView str) {
@@ -92,7 +92,7 @@ struct string_to {
         errno              = 0;
 
         if (std::is_floating_point<val_t>::value) {
-            val      = std::strtold(str.data(), &end);
+            val      = static_cast<safe_type>(std::strtold(str.data(), &end));
             oo_range = !std::isfinite(val);
         } else if (std::is_signed<val_t>::value) {
             val      = std::strtoll(str.data(), &end, 10);
-- 
2.43.0


From 301318192713505f422f628620f2f40684e6c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 11/11] fix: do not take an unfilled heuristic solution for an
 improvement

---
 src/algorithms/ThreePhase.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/ThreePhase.hpp b/src/algorithms/ThreePhase.hpp
index 6f31983..d26faea 100644
--- a/src/algorithms/ThreePhase.hpp
+++ b/src/algorithms/ThreePhase.hpp
@@ -61,7 +61,8 @@ public:
             sol.cost = cutoff;  // Sol get filled only if one with cost < cutoff is found
             subgrad.heuristic(env, core.inst, step_size, greedy, sol, lagr_mult);
 
-            if (sol.cost + fixing.fixed_cost < best_sol.cost) {
+            // cutoff + fixed_cost can be rounded below best_sol.cost, so check that sol was filled
+            if (sol.cost < cutoff && sol.cost + fixing.fixed_cost < best_sol.cost) {
                 _from_core_to_unfixed_sol(sol, core, fixing, best_sol);
                 CFT_IF_DEBUG(check_inst_solution(inst_copy, best_sol));
             }
-- 
2.43.0

