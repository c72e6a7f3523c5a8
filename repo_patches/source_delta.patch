From 6bdf7b5377ab48be7cc19b0bbb3f9e43e66e280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 01/33] fix: derivative of the Swamee-Jain friction coefficient

d log10(a) / dRe is 1 / (log(10) * a) * da/dRe; the code multiplied by a.
---
 src/Model/Balancelaw/Isothermaleulerequation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Model/Balancelaw/Isothermaleulerequation.cpp b/src/Model/Balancelaw/Isothermaleulerequation.cpp
index d1ec721..f3cc0e6 100644
--- a/src/Model/Balancelaw/Isothermaleulerequation.cpp
+++ b/src/Model/Balancelaw/Isothermaleulerequation.cpp
@@ -316,7 +316,8 @@ namespace Model::Balancelaw {
     double x = exp(log(Re) * 0.9);
     double a = roughness / (3.7 * diameter) + 5.74 / x;
     double aux = log10(a);
-    double daux_dRe = 1 / log(10) * a * (-5.74 / (x * x)) * 0.9 * x / Re;
+    double daux_dRe
+        = 1 / (log(10) * a) * (-5.74 / (x * x)) * 0.9 * x / Re;
     double dlambda_dRe = -0.5 / (aux * aux * aux) * daux_dRe;
     return dlambda_dRe;
   }
-- 
2.43.0


From 9fe296ea7060575c3b8dde9b65f1e72a2f9aa1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 02/33] fix: constraint of a ConstraintSink is the pressure in
 bar for every attached edge type

---
 src/Model/Networkproblem/Gas/ConstraintSink.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Model/Networkproblem/Gas/ConstraintSink.cpp b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
index f2d2a39..e34fd15 100644
--- a/src/Model/Networkproblem/Gas/ConstraintSink.cpp
+++ b/src/Model/Networkproblem/Gas/ConstraintSink.cpp
@@ -35,22 +35,23 @@ namespace Model::Gas {
       Eigen::Ref<Eigen::VectorXd const> const & /*control*/) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto sample_boundary_state
-        = sample_gas_edge->get_boundary_state(first_direction, state);
-    auto sample_pressure = sample_boundary_state[0];
+    auto sample_p_qvol_bar
+        = sample_gas_edge->get_boundary_p_qvol_bar(first_direction, state);
+    auto sample_pressure = sample_p_qvol_bar[0];
 
     constraint_values[get_constraint_startindex()] = sample_pressure;
   }
 
   void ConstraintSink::d_evaluate_constraint_d_state(
       Aux::Matrixhandler &constraint_new_state_jacobian_handler, double,
-      Eigen::Ref<Eigen::VectorXd const> const &,
+      Eigen::Ref<Eigen::VectorXd const> const &state,
       Eigen::Ref<Eigen::VectorXd const> const &) const {
     auto first_direction = directed_attached_gas_edges[0].first;
     auto *sample_gas_edge = directed_attached_gas_edges[0].second;
-    auto index = sample_gas_edge->get_boundary_state_index(first_direction);
-    constraint_new_state_jacobian_handler.add_to_coefficient(
-        get_constraint_startindex(), index, 1.0);
+    Eigen::RowVector2d dconstraint_dp_qvol(1.0, 0.0);
+    sample_gas_edge->dboundary_p_qvol_dstate(
+        first_direction, constraint_new_state_jacobian_handler,
+        dconstraint_dp_qvol, get_constraint_startindex(), state);
   }
 
   void ConstraintSink::d_evaluate_constraint_d_control(
-- 
2.43.0


From abcb236d85ef847df74ad2bee96d81dda4fdf376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 03/33] fix: reject unsorted interpolation points given as
 std::vector

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index ced377d..f9f805c 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -170,7 +170,7 @@ namespace Aux {
       interpolation_points(std::move(_interpolation_points)),
       inner_length(_inner_length) {
     if (not std::is_sorted(
-            _interpolation_points.begin(), _interpolation_points.end())) {
+            interpolation_points.begin(), interpolation_points.end())) {
       gthrow({"Interpolation points for InterpolatingVector were not sorted!"});
     }
   }
-- 
2.43.0


From 8963819076071c3a92d78c0b4d862fd5ae923e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 04/33] fix: reject a grid from start, end and a single entry
 instead of dividing by zero

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index f9f805c..437c187 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -32,10 +32,10 @@ namespace Aux {
 
   Interpolation_data make_from_start_number_end(
       double first_point, double last_point, int number_of_entries) {
-    if (number_of_entries <= 0) {
+    if (number_of_entries <= 1) {
       gthrow(
-          {"You can't have negative or zero number of entries in an "
-           "InterpolatingVector.\n",
+          {"You need at least two entries in an InterpolatingVector to reach "
+           "from the first to the last point.\n",
            "Supplied number of entries: ", std::to_string(number_of_entries)});
     }
     if (last_point <= first_point) {
-- 
2.43.0


From 60c26f91343dade3585cf31a153b8bd6ed422621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 05/33] fix: compute equidistant interpolation points without
 accumulating rounding errors

---
 src/Auxillary/InterpolatingVector/InterpolatingVector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
index 437c187..6148207 100644
--- a/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
+++ b/src/Auxillary/InterpolatingVector/InterpolatingVector.cpp
@@ -115,10 +115,10 @@ namespace Aux {
     auto delta = data.delta;
     auto number_of_entries = data.number_of_entries;
     std::vector<double> interpolation_points;
-    auto currentpoint = startpoint;
     for (size_t index = 0; index != number_of_entries; ++index) {
-      interpolation_points.push_back(currentpoint);
-      currentpoint += delta;
+      // Don't accumulate the step, rounding errors would add up.
+      interpolation_points.push_back(
+          startpoint + static_cast<double>(index) * delta);
     }
     assert(interpolation_points.front() == startpoint);
     // check for double equality. Should be an aux function...
-- 
2.43.0


From 005a52dcabc6d6bdb4a1116c4315d8920824c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 06/33] fix: Coeffrefhandler clears every stored coefficient of
 an uncompressed matrix

---
 src/Auxillary/Matrixhandler/Matrixhandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Auxillary/Matrixhandler/Matrixhandler.cpp b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
index e8b5955..e548dc7 100644
--- a/src/Auxillary/Matrixhandler/Matrixhandler.cpp
+++ b/src/Auxillary/Matrixhandler/Matrixhandler.cpp
@@ -57,6 +57,8 @@ namespace Aux {
   Coeffrefhandler<Transpose>::Coeffrefhandler(
       Eigen::SparseMatrix<double> &_matrix) :
       Matrixhandler(_matrix) {
+    // The values are contiguous only in a compressed matrix:
+    _matrix.makeCompressed();
     // Set the matrix to zero:
     Eigen::Map<Eigen::VectorXd> coefficients(
         _matrix.valuePtr(), _matrix.nonZeros());
-- 
2.43.0


From d92ea67d1a78858735605acf4c2b892bc506a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:56 +0000
Subject: [PATCH 07/33] fix: Newton solver reports no success for a residual
 that is not a number

---
 src/Newtonsolver/Newtonsolver.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/Newtonsolver/Newtonsolver.cpp b/src/Newtonsolver/Newtonsolver.cpp
index 5831498..d3744c0 100644
--- a/src/Newtonsolver/Newtonsolver.cpp
+++ b/src/Newtonsolver/Newtonsolver.cpp
@@ -152,12 +152,8 @@ namespace Solver {
       ++solstruct.used_iterations;
       solstruct.residual = rootvalues.norm();
     }
-    if (solstruct.used_iterations == maximal_iterations
-        and solstruct.residual > tolerance) {
-      solstruct.success = false;
-    } else {
-      solstruct.success = true;
-    }
+    // This is false also for a residual, that is not a number:
+    solstruct.success = (rootvalues.norm() <= tolerance);
 
     return solstruct;
   }
-- 
2.43.0


From 046eb97998319c12fdbf59f527cdb563dcf1ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:35 +0000
Subject: [PATCH 08/33] fix: compute_derivatives does not look for a constraint
 time before the first one

---
 src/IpoptWrapper/ImplicitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IpoptWrapper/ImplicitOptimizer.cpp b/src/IpoptWrapper/ImplicitOptimizer.cpp
index 68a032b..d565a50 100644
--- a/src/IpoptWrapper/ImplicitOptimizer.cpp
+++ b/src/IpoptWrapper/ImplicitOptimizer.cpp
@@ -566,8 +566,9 @@ namespace Optimization {
           // constraints:
           // Find out, whether a new constraint appears at this index:
           bool current_step_is_new_constraint_time = false;
-          if (constraint_timepoints[constraint_index - 1]
-              == state_timepoints[state_index]) {
+          if (constraint_index > 0
+              and constraint_timepoints[constraint_index - 1]
+                      == state_timepoints[state_index]) {
             constraints_are_active_at_current_time = true;
             --constraint_index;
             current_step_is_new_constraint_time = true;
-- 
2.43.0


From 73b03d1dd865707c6a6cb417d99a019797db181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:52 +0000
Subject: [PATCH 09/33] fix: interpolation lookup handles a time exactly one
 tolerance after the last point

---
 src/Optimization_helpers/Optimization_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization_helpers/Optimization_helpers.cpp b/src/Optimization_helpers/Optimization_helpers.cpp
index fdf09e5..5fe6151 100644
--- a/src/Optimization_helpers/Optimization_helpers.cpp
+++ b/src/Optimization_helpers/Optimization_helpers.cpp
@@ -31,7 +31,7 @@ namespace Optimization {
     assert(std::is_sorted(timepoints.begin(), timepoints.end()));
 
     if (time > *(std::prev(timepoints.end()))
-        and time < *(std::prev(timepoints.end())) + Aux::EPSILON) {
+        and time <= *(std::prev(timepoints.end())) + Aux::EPSILON) {
       Eigen::Index i_upper = back_index(timepoints);
       double lambda = 1.0;
       return {i_upper, lambda};
-- 
2.43.0


From beb8a0e6ed5d51dc8cc3fcf860a9b9787d2ea0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:32 +0000
Subject: [PATCH 10/33] fix: cost and penalty of the solution are evaluated at
 the solution

---
 src/IpoptWrapper/Wrapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IpoptWrapper/Wrapper.cpp b/src/IpoptWrapper/Wrapper.cpp
index f24fec4..342511c 100644
--- a/src/IpoptWrapper/Wrapper.cpp
+++ b/src/IpoptWrapper/Wrapper.cpp
@@ -171,6 +171,8 @@ namespace Optimization {
     Eigen::Map<Eigen::VectorXd const> constraints(g, number_of_constraints);
     best_solution = solution;
     best_objective_value = obj_value;
+    // The solution need not be the point that was evaluated last:
+    optimizer->new_x();
     best_cost_value = 0;
     optimizer->evaluate_cost(solution, best_cost_value);
     best_penalty_value = 0;
-- 
2.43.0


From 5ad5093d16619b6c28cdc79bc5de784864a698b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:04 +0000
Subject: [PATCH 11/33] fix: save the power of the saved state for stochastic
 PQ nodes

json_save wrote the realisation of the last prepared time step for every saved time
---
 src/Model/Networkproblem/Power/StochasticPQnode.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Model/Networkproblem/Power/StochasticPQnode.cpp b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
index a403406..68fbbd0 100644
--- a/src/Model/Networkproblem/Power/StochasticPQnode.cpp
+++ b/src/Model/Networkproblem/Power/StochasticPQnode.cpp
@@ -149,8 +149,9 @@ namespace Model::Power {
 
   void StochasticPQnode::json_save(
       double time, Eigen::Ref<Eigen::VectorXd const> const &state) {
-    auto P_val = current_P;
-    auto Q_val = current_Q;
+    // current_P and current_Q belong to the last prepared time step only.
+    auto P_val = P(state);
+    auto Q_val = Q(state);
     auto P_deviation = P_val - boundaryvalue(time)[0];
     auto Q_deviation = Q_val - boundaryvalue(time)[1];
 
-- 
2.43.0


From 2a5737f6f20e2ee42601bfab6c22d22d2b6632e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:44 +0000
Subject: [PATCH 12/33] fix: escape the circumflex of unit names in the unit
 schema

---
 src/Auxillary/unit_conversion/unit_conversion.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Auxillary/unit_conversion/unit_conversion.cpp b/src/Auxillary/unit_conversion/unit_conversion.cpp
index cdb0505..34b9da9 100644
--- a/src/Auxillary/unit_conversion/unit_conversion.cpp
+++ b/src/Auxillary/unit_conversion/unit_conversion.cpp
@@ -172,7 +172,15 @@ namespace Aux::unit {
   std::string re_capture_from_map(std::map<std::string, Conversion> map) {
     std::ostringstream regex_stream;
     regex_stream << "(";
-    for (auto [item, _] : map) { regex_stream << item << "|"; }
+    for (auto [item, _] : map) {
+      for (char c : item) {
+        if (c == '^') {
+          regex_stream << '\\'; // an unescaped ^ only matches at the beginning
+        }
+        regex_stream << c;
+      }
+      regex_stream << "|";
+    }
     std::string regex = regex_stream.str();
     regex.pop_back();
     return regex + ")";
-- 
2.43.0


From 7a08da394dc3d575211292bbea6a0a4a5fe8a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 13/33] fix: a prefix of a squared or cubed unit is squared or
 cubed

---
 .../unit_conversion/include/unit_conversion.hpp |  6 ++++--
 .../unit_conversion/unit_conversion.cpp         | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/Auxillary/unit_conversion/include/unit_conversion.hpp b/src/Auxillary/unit_conversion/include/unit_conversion.hpp
index 261f584..4cae35a 100644
--- a/src/Auxillary/unit_conversion/include/unit_conversion.hpp
+++ b/src/Auxillary/unit_conversion/include/unit_conversion.hpp
@@ -101,11 +101,12 @@ namespace Aux::unit {
    *
    * @param prefix the prefix string to parse
    * @param prefix_map the prefix_map which includes all the possible symbols
+   * @param exponent the power of the symbol, e.g. 2 in km^2
    * @return double the prefix value
    */
   double parse_prefix(
       std::string const &prefix,
-      std::map<std::string, Conversion> const &prefix_map);
+      std::map<std::string, Conversion> const &prefix_map, int exponent = 1);
 
   /**
    * @brief parses a string which is the prefix of a unit (e.g. "500 k" of "500
@@ -113,9 +114,10 @@ namespace Aux::unit {
    * prefix
    *
    * @param prefix the prefix string to parse
+   * @param exponent the power of the si prefix, e.g. 2 in km^2
    * @return double the prefix value
    */
-  double parse_prefix_si(std::string const &prefix);
+  double parse_prefix_si(std::string const &prefix, int exponent = 1);
 
   const std::tuple<std::string, Conversion> parse_unit(
       std::string const &unit,
diff --git a/src/Auxillary/unit_conversion/unit_conversion.cpp b/src/Auxillary/unit_conversion/unit_conversion.cpp
index 34b9da9..a5bf50f 100644
--- a/src/Auxillary/unit_conversion/unit_conversion.cpp
+++ b/src/Auxillary/unit_conversion/unit_conversion.cpp
@@ -76,7 +76,7 @@ namespace Aux::unit {
 
   double parse_prefix(
       std::string const &prefix,
-      std::map<std::string, Conversion> const &prefix_map) {
+      std::map<std::string, Conversion> const &prefix_map, int exponent) {
     // split into num_prefix and si_prefix
     std::string si_prefix;
     double num_prefix;
@@ -103,11 +103,12 @@ namespace Aux::unit {
       throw std::runtime_error(o.str());
     }
     Conversion conv = search_si_prefix->second;
-    return conv(num_prefix);
+    for (int i = 0; i < exponent; ++i) { num_prefix = conv(num_prefix); }
+    return num_prefix;
   }
 
-  double parse_prefix_si(std::string const &prefix) {
-    return parse_prefix(prefix, si_prefixes);
+  double parse_prefix_si(std::string const &prefix, int exponent) {
+    return parse_prefix(prefix, si_prefixes, exponent);
   }
 
   Conversion::Conversion(double _multiplicator, double _offset) :
@@ -127,7 +128,13 @@ namespace Aux::unit {
     std::string unit = measurement["unit"].get<std::string>();
 
     auto [prefix, conv] = parse_unit(unit, this->conversion_map);
-    return conv(measurement["value"].get<double>() * parse_prefix_si(prefix));
+    // The prefix of a power belongs to the base: 1 km^2 is 1 (km)^2.
+    auto circumflex = unit.rfind('^');
+    int exponent = circumflex == std::string::npos
+                       ? 1
+                       : std::stoi(unit.substr(circumflex + 1));
+    return conv(
+        measurement["value"].get<double>() * parse_prefix_si(prefix, exponent));
   }
 
   const std::tuple<std::string, Conversion> parse_unit(
-- 
2.43.0


From b239667dddd4476574982fc817a178f470b08f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:34 +0000
Subject: [PATCH 14/33] fix: overwrite_json keeps the old file until the new
 one is complete and reports failures

---
 src/Auxillary/aux_json/Aux_json.cpp | 42 ++++++++++++-----------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/Auxillary/aux_json/Aux_json.cpp b/src/Auxillary/aux_json/Aux_json.cpp
index df956c4..9946e3e 100644
--- a/src/Auxillary/aux_json/Aux_json.cpp
+++ b/src/Auxillary/aux_json/Aux_json.cpp
@@ -106,38 +106,30 @@ namespace aux_json {
       std::filesystem::path const &file_path,
       nlohmann::ordered_json const &new_json) {
 
-    // creating a backup if this file existed
-    bool had_existed = false;
-    std::filesystem::path backup_path = file_path.parent_path() / "tmp_backup";
-    if (std::filesystem::exists(file_path)) {
-      had_existed = true;
-      std::filesystem::rename(file_path, backup_path);
-      if (not std::filesystem::exists(backup_path)) {
-        throw std::filesystem::filesystem_error(
-            "backup file could not be created, aborting", std::error_code());
-      }
+    // The new content goes to a fresh file next to the target, which replaces
+    // the target only after it has been written completely.
+    std::filesystem::path new_path = file_path;
+    new_path += ".new";
+    for (int i = 1; std::filesystem::exists(new_path); ++i) {
+      new_path = file_path;
+      new_path += ".new" + std::to_string(i);
     }
 
     try {
-      // attempting the overwrite
-      std::ofstream ofs(file_path, std::ofstream::trunc);
+      std::ofstream ofs(new_path, std::ofstream::trunc);
       ofs << new_json.dump(/*indent=*/1, /*indent_char=*/'\t');
       ofs.close();
+      if (ofs.fail()) {
+        gthrow({"The file \n", new_path.string(), "\n could not be written!"});
+      }
+      std::filesystem::rename(new_path, file_path);
     } catch (...) {
-      std::cout << "something went wrong writing the modified json to file"
+      std::cout << "something went wrong writing the modified json to file, "
+                   "keeping the old version"
                 << std::endl;
-      if (had_existed) {
-        if (std::filesystem::exists(backup_path)) {
-          std::cout << "rolling back to old version" << std::endl;
-          std::filesystem::rename(backup_path, file_path);
-        } else {
-          std::cout << "backup file is missing!" << std::endl;
-        }
-      }
-    }
-    // remove backup
-    if (had_existed) {
-      std::filesystem::remove(backup_path);
+      std::error_code ignored;
+      std::filesystem::remove(new_path, ignored);
+      throw;
     }
   }
 
-- 
2.43.0


From c8cb3639ef6365a8106a101599adc407792412be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:06 +0000
Subject: [PATCH 15/33] fix: absolute_file_path_in_root does not read past the
 end of a shorter path

---
 src/Auxillary/Input_Output/Input_output.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index 04474d3..c472d91 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -32,7 +32,7 @@ namespace io {
 
     auto [root_end_iterator, ignored_value] = std::mismatch(
         problem_root_path.begin(), problem_root_path.end(),
-        absolute_path.begin());
+        absolute_path.begin(), absolute_path.end());
 
     if (root_end_iterator != problem_root_path.end()) {
       return false;
-- 
2.43.0


From aa89f88b99375eb625411eb757f12d517bca2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:06 +0000
Subject: [PATCH 16/33] fix: prepare_output_directory creates no file with an
 empty name by default

---
 src/Auxillary/Input_Output/include/Input_output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxillary/Input_Output/include/Input_output.hpp b/src/Auxillary/Input_Output/include/Input_output.hpp
index d4888ab..e28beec 100644
--- a/src/Auxillary/Input_Output/include/Input_output.hpp
+++ b/src/Auxillary/Input_Output/include/Input_output.hpp
@@ -110,5 +110,5 @@ namespace io {
   void prepare_output_directory(
       std::filesystem::path const &output_directory,
       std::filesystem::path const &problem_directory,
-      std::vector<std::string> filenames_to_create = {{}});
+      std::vector<std::string> filenames_to_create = {});
 } // namespace io
-- 
2.43.0


From 54684d542cde145acad18a1732635e922ebc7046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:06 +0000
Subject: [PATCH 17/33] fix: timestamp has three digits of milliseconds

---
 src/Auxillary/Input_Output/Input_output.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Auxillary/Input_Output/Input_output.cpp b/src/Auxillary/Input_Output/Input_output.cpp
index c472d91..4e6cad8 100644
--- a/src/Auxillary/Input_Output/Input_output.cpp
+++ b/src/Auxillary/Input_Output/Input_output.cpp
@@ -114,6 +114,7 @@ namespace io {
             nowtime - time_up_to_seconds);
 
     auto ms_string = std::to_string(ms_since_second.count());
+    ms_string.insert(0, 3 - ms_string.size(), '0'); // always three digits
     char mbstr[32];
     if (std::strftime(
             mbstr, sizeof(mbstr), "%Y.%m.%d_%H:%M:%S", std::localtime(&t))) {
-- 
2.43.0


From 2a378cf2a429b94afa7e1c8fa18f08f6d0ff7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 18/33] fix: problem data schema accepts the problem data that
 grazer reads

---
 .../json_schema/schema_generation.cpp         | 73 ++++---------------
 1 file changed, 15 insertions(+), 58 deletions(-)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 789a9ff..22ae868 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -48,7 +48,7 @@ namespace Aux::schema {
       } catch (nlohmann::json::out_of_range &e) {
         std::cout << "[Warning] The `problem_data.json` does not have the "
                      "expected structure:\n"
-                  << "  problem_data.subproblems.Network_problem.defaults\n"
+                  << "  problem_data.defaults\n"
                   << "  " << e.what() << "\n"
                   << "Generating Schemas without defaults!" << std::endl;
       }
@@ -125,7 +125,7 @@ namespace Aux::schema {
       "$schema": "http://json-schema.org/draft-07/schema",
       "type": "object",
       "description": "Metadata of the Problem",
-      "required": ["simulation_settings", "initial_values", "problem_data"],
+      "required": ["simulation_settings", "problem_data"],
       "properties": {
         "simulation_settings": {
           "type": "object",
@@ -149,66 +149,23 @@ namespace Aux::schema {
             "desired_delta_t": {"type": "number"}
           }
         },
-        "initial_values": {
-          "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
-          "properties": {
-            "subproblems": {
-              "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["initial_json"],
-                  "properties": {
-                    "initial_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Initial Values JSON file"
-                    }
-                  }
-                }
-              }
-            }
-          }
-        },
         "problem_data": {
           "type": "object",
-          "description": "holds a file name to an additional initial values json sorted by subproblem",
-          "required": ["subproblems"],
+          "description": "holds the topology and boundary value files of the network and default properties",
+          "required": ["topology_json", "boundary_json"],
           "properties": {
-            "subproblems": {
+            "defaults": {
               "type": "object",
-              "required": ["Network_problem"],
-              "properties": {
-                "Network_problem": {
-                  "type": "object",
-                  "required": ["defaults", "topology_json", "boundary_json", "control_json"],
-                  "properties": {
-                    "defaults": {
-                      "type": "object",
-                      "patternProperties": {"^.*$": {"type": "object"}},
-                      "description": "Components With default Topology Properties"
-                    },
-                    "topology_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Topology JSON file"
-                    },
-                    "boundary_json": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Boundary JSON file"
-                    },
-                    "control": {
-                      "type": "string",
-                      "format": "iri-reference",
-                      "description": "Control JSON file"
-                    }
-                  }
-                }
-              }
+              "patternProperties": {"^.*$": {"type": "object"}},
+              "description": "Components With default Topology Properties"
+            },
+            "topology_json": {
+              "type": ["string", "object"],
+              "description": "Topology JSON file or its content"
+            },
+            "boundary_json": {
+              "type": ["string", "object"],
+              "description": "Boundary JSON file or its content"
             }
           }
         }
-- 
2.43.0


From 69e83e4fa1ffde8978b26708b7f04b09675de01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:36 +0000
Subject: [PATCH 19/33] fix: a missing simulation setting is an error, not
 undefined behaviour

operator[] on a const json object requires the key to exist.
---
 src/Auxillary/Timedata/Timedata.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Auxillary/Timedata/Timedata.cpp b/src/Auxillary/Timedata/Timedata.cpp
index d31e018..bd76140 100644
--- a/src/Auxillary/Timedata/Timedata.cpp
+++ b/src/Auxillary/Timedata/Timedata.cpp
@@ -20,10 +20,10 @@
 namespace Model {
 
   Timedata::Timedata(nlohmann::json const &simulation_settings) :
-      starttime(simulation_settings["start_time"].get<double>()),
-      endtime(simulation_settings["end_time"].get<double>()),
+      starttime(simulation_settings.at("start_time").get<double>()),
+      endtime(simulation_settings.at("end_time").get<double>()),
       Number_of_timesteps(init_Number_of_timesteps(
-          simulation_settings["desired_delta_t"].get<double>())),
+          simulation_settings.at("desired_delta_t").get<double>())),
       delta_t(init_delta_t()) {}
 
   int Timedata::init_Number_of_timesteps(double desired_delta_t) const {
-- 
2.43.0


From 0e0f7f3fbd6b890c753d459892714cdbef4bc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:05 +0000
Subject: [PATCH 20/33] fix: a run whose results cannot be written completely
 fails

The streams writing states.json and controls.json were never checked.
---
 src/Grazer/commands.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index dd5fcbc..c400b4f 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -41,6 +41,15 @@
 #include <sstream>
 #include <stdexcept>
 
+// Throws if not everything written to the stream arrived in the file.
+static void
+check_written(std::ofstream &stream, std::filesystem::path const &file) {
+  stream.close();
+  if (stream.fail()) {
+    gthrow({"The file\n", file.string(), "\ncould not be written!"});
+  }
+}
+
 int grazer::run(std::filesystem::path directory_path) {
   using Clock = std::chrono::high_resolution_clock;
   using TimePoint = std::chrono::time_point<Clock>;
@@ -139,6 +148,7 @@ int grazer::run(std::filesystem::path directory_path) {
                   << std::endl;
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        check_written(o, states_outputfile);
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to files failed with error message:"
@@ -292,6 +302,7 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "controls.json";
         std::ofstream o(control_outputfile);
         o << control_output_json.dump(1, '\t');
+        check_written(o, control_outputfile);
 
       } catch (std::exception &e) {
         std::ostringstream o;
@@ -311,6 +322,7 @@ int grazer::run(std::filesystem::path directory_path) {
             = output_directory / "states.json";
         std::ofstream o(states_outputfile);
         o << states_output_json.dump(1, '\t');
+        check_written(o, states_outputfile);
       } catch (std::exception &e) {
         std::ostringstream o;
         o << "Printing to state output file failed with error message:"
-- 
2.43.0


From 56efc77505d1a72ebfbe72a50d2769326b7732c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:59 +0000
Subject: [PATCH 21/33] fix: schemas that cannot be written completely are an
 error

---
 src/Auxillary/json_schema/schema_generation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Auxillary/json_schema/schema_generation.cpp b/src/Auxillary/json_schema/schema_generation.cpp
index 22ae868..e0c33d4 100644
--- a/src/Auxillary/json_schema/schema_generation.cpp
+++ b/src/Auxillary/json_schema/schema_generation.cpp
@@ -88,6 +88,10 @@ namespace Aux::schema {
       std::ofstream ofs(file);
       ofs << schema.dump(
           /*indent=*/1, /*indent_char=*/'\t');
+      ofs.close();
+      if (ofs.fail()) {
+        gthrow({"The file \n", file.string(), "\n could not be written!"});
+      }
     }
   }
 
-- 
2.43.0


From cf04a0cd1382dcb68086fbe30a61beee3b885e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:03 +0000
Subject: [PATCH 22/33] fix: optimizing a problem without controls is an error,
 not a crash

---
 src/Grazer/commands.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index c400b4f..1f16db7 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -160,6 +160,11 @@ int grazer::run(std::filesystem::path directory_path) {
       wall_clock_sim_end = Clock::now();
     } else {
       // optimize!
+      if (full_controls.size() == 0) {
+        gthrow(
+            {"There is nothing to optimize, because the problem has no "
+             "controls."});
+      }
       Eigen::Index n = 1;
       if (all_json.contains("constraint_settings")) {
         auto &constraint_settings = all_json["constraint_settings"];
-- 
2.43.0


From a0b42c3357798a7ca947bba82406dc5bb5d7c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:03 +0000
Subject: [PATCH 23/33] fix: an optimization without a usable solution fails

Without a solution (or with one that cannot be simulated) the run went on with empty vectors.
---
 src/Grazer/commands.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 1f16db7..54edfa5 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -240,6 +240,11 @@ int grazer::run(std::filesystem::path directory_path) {
 
       adaptor.optimize();
 
+      auto ipoptcontrols = adaptor.get_solution();
+      if (ipoptcontrols.size() != optimizer.get_total_no_controls()) {
+        gthrow({"The optimizer returned no solution."});
+      }
+
       Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
 
       Optimization::MappedConstraintJacobian jacmapped(
@@ -263,8 +268,6 @@ int grazer::run(std::filesystem::path directory_path) {
       std::cout << "Overall objective: " << adaptor.get_objective_value()
                 << std::endl;
 
-      auto ipoptcontrols = adaptor.get_solution();
-
       Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
 
       optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
@@ -281,7 +284,9 @@ int grazer::run(std::filesystem::path directory_path) {
 
       double objective = 0;
       optimizer.new_x();
-      optimizer.evaluate_objective(ipoptcontrols, objective);
+      if (not optimizer.evaluate_objective(ipoptcontrols, objective)) {
+        gthrow({"The simulation with the returned controls failed."});
+      }
       auto &state_solution = optimizer.get_current_full_state();
       Aux::ConstMappedInterpolatingVector const control_solution(
           control_timepoints, problem.get_number_of_controls_per_timepoint(),
-- 
2.43.0


From 1c57377b0fef77c2d070a15bbdeaed6a744159e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:03 +0000
Subject: [PATCH 24/33] fix: problems without constraints can be optimized

---
 src/Grazer/commands.cpp | 56 ++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/Grazer/commands.cpp b/src/Grazer/commands.cpp
index 54edfa5..60d2db6 100644
--- a/src/Grazer/commands.cpp
+++ b/src/Grazer/commands.cpp
@@ -245,24 +245,26 @@ int grazer::run(std::filesystem::path directory_path) {
         gthrow({"The optimizer returned no solution."});
       }
 
-      Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
-
-      Optimization::MappedConstraintJacobian jacmapped(
-          storage.data(), storage.size(), optimizer.constraints_per_step(),
-          optimizer.controls_per_step(), constraint_timepoints,
-          control_timepoints);
-      jacmapped = optimizer.get_constraint_jacobian();
-      int count = 0;
-      for (auto entry : storage) {
-        if (std::abs(entry) > 1e-10) {
-          ++count;
+      if (optimizer.get_no_nnz_in_jacobian() > 0) {
+        Eigen::VectorXd storage(optimizer.get_no_nnz_in_jacobian());
+
+        Optimization::MappedConstraintJacobian jacmapped(
+            storage.data(), storage.size(), optimizer.constraints_per_step(),
+            optimizer.controls_per_step(), constraint_timepoints,
+            control_timepoints);
+        jacmapped = optimizer.get_constraint_jacobian();
+        int count = 0;
+        for (auto entry : storage) {
+          if (std::abs(entry) > 1e-10) {
+            ++count;
+          }
         }
-      }
 
-      double sparsity
-          = double(count) / double(optimizer.get_no_nnz_in_jacobian());
-      std::cout << "density of the constraint jacobian: " << 100 * sparsity
-                << "%" << std::endl;
+        double sparsity
+            = double(count) / double(optimizer.get_no_nnz_in_jacobian());
+        std::cout << "density of the constraint jacobian: " << 100 * sparsity
+                  << "%" << std::endl;
+      }
       std::cout << "Cost: " << adaptor.get_cost_value() << std::endl;
       std::cout << "Penalty: " << adaptor.get_penalty_value() << std::endl;
       std::cout << "Overall objective: " << adaptor.get_objective_value()
@@ -271,16 +273,18 @@ int grazer::run(std::filesystem::path directory_path) {
       Eigen::VectorXd ipoptconstraints(optimizer.get_total_no_constraints());
 
       optimizer.evaluate_constraints(ipoptcontrols, ipoptconstraints);
-      auto lower_violation
-          = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
-                .maxCoeff();
-      std::cout << "Maximum lower constraint violation:\n"
-                << std::max(0.0, lower_violation) << std::endl;
-      auto upper_violation
-          = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
-                .maxCoeff();
-      std::cout << "Maximum upper constraint violation:\n"
-                << std::max(0.0, upper_violation) << std::endl;
+      if (ipoptconstraints.size() > 0) {
+        auto lower_violation
+            = (-(ipoptconstraints - constraint_lower_bounds.get_allvalues()))
+                  .maxCoeff();
+        std::cout << "Maximum lower constraint violation:\n"
+                  << std::max(0.0, lower_violation) << std::endl;
+        auto upper_violation
+            = (-(constraint_upper_bounds.get_allvalues() - ipoptconstraints))
+                  .maxCoeff();
+        std::cout << "Maximum upper constraint violation:\n"
+                  << std::max(0.0, upper_violation) << std::endl;
+      }
 
       double objective = 0;
       optimizer.new_x();
-- 
2.43.0


From 68c065254fcd44068c36584e5a6f71a91fbc6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:42 +0000
Subject: [PATCH 25/33] fix: extract_new_initial_condition takes the given time
 or the first one after it

---
 helper_functions/extract_new_initial_condition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helper_functions/extract_new_initial_condition.cpp b/helper_functions/extract_new_initial_condition.cpp
index 018359b..8b9df35 100644
--- a/helper_functions/extract_new_initial_condition.cpp
+++ b/helper_functions/extract_new_initial_condition.cpp
@@ -70,7 +70,8 @@ int main(int argc, char **argv) {
         auto it = std::lower_bound(
             component["data"].begin(), component["data"].end(),
             time_compare_value, less_time);
-        if (it != component["data"].begin()) {
+        if (it == component["data"].end()
+            and it != component["data"].begin()) {
           --it;
         }
         json initialdata;
-- 
2.43.0


From 3c3565609a9cabb42351ce06c53198bb5b85e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:28 +0000
Subject: [PATCH 26/33] fix: quantiles of few runs do not read past the values,
 and the median is one

---
 helper_functions/get_quantiles.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/helper_functions/get_quantiles.cpp b/helper_functions/get_quantiles.cpp
index fc68f04..bbcbec6 100644
--- a/helper_functions/get_quantiles.cpp
+++ b/helper_functions/get_quantiles.cpp
@@ -1,6 +1,7 @@
 /** @file */
 
 #include <algorithm>
+#include <cmath>
 #include <cstddef>
 #include <cstdlib>
 #include <filesystem>
@@ -396,10 +397,14 @@ std::vector<Quantile_triplet> make_quantiles(json::array_t const &data) {
   std::vector<double> quantile_values = {0.0, 0.5, 0.75, 0.9};
   for (auto &qvalue : quantile_values) {
     auto offset = qvalue * 0.5 * static_cast<unsigned int>(n);
-    unsigned int highindex = static_cast<unsigned int>(
-        std::round(0.5 * static_cast<unsigned int>(n) + offset));
-    unsigned int lowindex = static_cast<unsigned int>(
-        std::round(0.5 * static_cast<unsigned int>(n) - offset));
+    // ranks count from one, indices from zero.
+    auto rank_to_index = [](double rank) -> size_t {
+      return static_cast<size_t>(std::max(std::round(rank), 1.0)) - 1;
+    };
+    auto highindex
+        = rank_to_index(0.5 * static_cast<unsigned int>(n) + offset);
+    auto lowindex
+        = rank_to_index(0.5 * static_cast<unsigned int>(n) - offset);
 
     values.push_back({qvalue, data[lowindex], data[highindex]});
   }
-- 
2.43.0


From 1dabf08487a942ab93e3089ed7c272428e2d9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:34 +0000
Subject: [PATCH 27/33] fix: a component missing in the reference is not
 compared with another one

---
 helper_functions/compute_reference_discrepance.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helper_functions/compute_reference_discrepance.cpp b/helper_functions/compute_reference_discrepance.cpp
index 5a13752..d95dd27 100644
--- a/helper_functions/compute_reference_discrepance.cpp
+++ b/helper_functions/compute_reference_discrepance.cpp
@@ -151,7 +151,8 @@ void add_gas_json_data(
             reference[compclass][type].begin(),
             reference[compclass][type].end(), this_id, id_compare_less);
 
-        if (it_reference == reference[compclass][type].end()) {
+        if (it_reference == reference[compclass][type].end()
+            or (*it_reference)["id"] != id) {
           throw std::runtime_error(
               "The reference solution lacks a field that is present in some "
               "input file, aborting!");
@@ -292,7 +293,8 @@ void add_power_json_data(
             reference[compclass][type].begin(),
             reference[compclass][type].end(), this_id, id_compare_less);
 
-        if (it_reference == reference[compclass][type].end()) {
+        if (it_reference == reference[compclass][type].end()
+            or (*it_reference)["id"] != id) {
           throw std::runtime_error(
               "The reference solution lacks a field that is present in some "
               "input file, aborting!");
-- 
2.43.0


From dee70bd8c3d44284e34e7ae05f92fb5b181ec5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:10 +0000
Subject: [PATCH 28/33] fix: change_inflow leaves the boundary values alone if
 it cannot scale them

---
 helper_functions/change_inflow.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/helper_functions/change_inflow.cpp b/helper_functions/change_inflow.cpp
index dc35314..faac032 100644
--- a/helper_functions/change_inflow.cpp
+++ b/helper_functions/change_inflow.cpp
@@ -46,11 +46,18 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
   }
 
+  if (old_summed_input == 0) {
+    std::cout << "Error: there is no gas input that could be scaled!"
+              << std::endl;
+    return 1;
+  }
+
   try {
     for (auto &source : results["nodes"]["Source"]) {
       source["data"][0]["values"][0]
@@ -62,6 +69,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
-- 
2.43.0


From ca7a79e174bced1511f30d7825b1b9fec54f6e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:10 +0000
Subject: [PATCH 29/33] fix: increase_pressure changes nothing but pressures
 and fails without changing any

---
 helper_functions/increase_pressure.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/helper_functions/increase_pressure.cpp b/helper_functions/increase_pressure.cpp
index e63bc84..ddd2ba1 100644
--- a/helper_functions/increase_pressure.cpp
+++ b/helper_functions/increase_pressure.cpp
@@ -50,7 +50,8 @@ int main(int argc, char **argv) {
          "Gaspowerconnection"};
   try {
     for (auto const &type : gastypes) {
-      if (not results["connections"].contains(type)) {
+      if (not results.contains("connections")
+          or not results["connections"].contains(type)) {
         continue;
       }
       for (auto &gastype : results["connections"][type]) {
@@ -63,6 +64,7 @@ int main(int argc, char **argv) {
     }
   } catch (std::exception &e) {
     std::cout << "Error: " << e.what() << std::endl;
+    return 1;
   } catch (...) {
     std::cout << "Unknown error, aborting!" << std::endl;
     return 1;
-- 
2.43.0


From 1a5eb7580135c296b480661a605a60c3b15a083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:47 +0000
Subject: [PATCH 30/33] fix: draw_heatmap_gaslib finds the smallest and biggest
 pressure

---
 helper_functions/draw_heatmap_gaslib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper_functions/draw_heatmap_gaslib.cpp b/helper_functions/draw_heatmap_gaslib.cpp
index e0b6a8d..e02e902 100644
--- a/helper_functions/draw_heatmap_gaslib.cpp
+++ b/helper_functions/draw_heatmap_gaslib.cpp
@@ -279,7 +279,7 @@ std::pair<double, double> extract_min_max_values(
           if (key != "pressure") {
             continue;
           }
-          double pipe_wide_max = min;
+          double pipe_wide_max = std::numeric_limits<double>::lowest();
           for (auto const &xpoint : quantity) {
             if (xpoint["value"] > pipe_wide_max) {
               pipe_wide_max = xpoint["value"];
-- 
2.43.0


From 66694afceea985617cf204de56b8625fa380f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:47 +0000
Subject: [PATCH 31/33] fix: draw_heatmap_power colors every node by its own
 values

---
 helper_functions/draw_heatmap_power.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper_functions/draw_heatmap_power.cpp b/helper_functions/draw_heatmap_power.cpp
index e4d0893..f649d6d 100644
--- a/helper_functions/draw_heatmap_power.cpp
+++ b/helper_functions/draw_heatmap_power.cpp
@@ -106,8 +106,8 @@ int main(int argc, char **argv) {
       continue;
     }
     // auto color = colorchooser(type);
-    double value = min;
     for (auto const &node : topology["nodes"][type]) {
+      double value = min;
       if (not node.contains("results")) {
         std::cout << node.dump(1, '\t');
         throw std::runtime_error("no results!!");
-- 
2.43.0


From bdbfb0b9466b823751c2e4b7c318cf24f08dbb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:47 +0000
Subject: [PATCH 32/33] fix: heatmaps can be drawn if all values are equal

---
 helper_functions/draw_heatmap_gaslib.cpp | 5 ++++-
 helper_functions/draw_heatmap_power.cpp  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/helper_functions/draw_heatmap_gaslib.cpp b/helper_functions/draw_heatmap_gaslib.cpp
index e02e902..d288e75 100644
--- a/helper_functions/draw_heatmap_gaslib.cpp
+++ b/helper_functions/draw_heatmap_gaslib.cpp
@@ -256,7 +256,10 @@ rgb rgb_color(double minimum, double maximum, double value) {
     std::cout << "value:" << value << std::endl;
     throw std::runtime_error("A value was not in between minimum and maximum!");
   }
-  double ratio = 2 * (value - minimum) / (maximum - minimum);
+  double ratio = 1.0; // if there is only one value, it is in the middle.
+  if (maximum > minimum) {
+    ratio = 2 * (value - minimum) / (maximum - minimum);
+  }
   int b = static_cast<int>(std::max(0., 255 * (1. - ratio)));
   int r = static_cast<int>(std::max(0., 255 * (ratio - 1)));
   int g = 255 - b - r;
diff --git a/helper_functions/draw_heatmap_power.cpp b/helper_functions/draw_heatmap_power.cpp
index f649d6d..016cb19 100644
--- a/helper_functions/draw_heatmap_power.cpp
+++ b/helper_functions/draw_heatmap_power.cpp
@@ -256,7 +256,10 @@ rgb rgb_color(double minimum, double maximum, double value) {
     std::cout << "value:" << value << std::endl;
     throw std::runtime_error("A value was not in between minimum and maximum!");
   }
-  double ratio = 2 * (value - minimum) / (maximum - minimum);
+  double ratio = 1.0; // if there is only one value, it is in the middle.
+  if (maximum > minimum) {
+    ratio = 2 * (value - minimum) / (maximum - minimum);
+  }
   int b = static_cast<int>(std::max(0., 255 * (1. - ratio)));
   int r = static_cast<int>(std::max(0., 255 * (ratio - 1)));
   int g = 255 - b - r;
-- 
2.43.0


From 3e6571afe46d2f796147398edc7a6b1938db8194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:47 +0000
Subject: [PATCH 33/33] fix: drawing programs fail if the drawing is incomplete

---
 helper_functions/draw_gaslib_graph.cpp   | 15 ++++++++++-----
 helper_functions/draw_heatmap_gaslib.cpp | 15 ++++++++++-----
 helper_functions/draw_heatmap_power.cpp  | 15 ++++++++++-----
 helper_functions/draw_power_graph.cpp    | 15 ++++++++++-----
 4 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/helper_functions/draw_gaslib_graph.cpp b/helper_functions/draw_gaslib_graph.cpp
index 7f71bae..8dbdfba 100644
--- a/helper_functions/draw_gaslib_graph.cpp
+++ b/helper_functions/draw_gaslib_graph.cpp
@@ -75,9 +75,9 @@ int main(int argc, char **argv) {
     }
     auto color = colorchooser(type);
     for (auto const &node : topology["nodes"][type]) {
-      std::string id = node["id"];
-      double x = node["x"].get<double>();
-      double y = node["y"].get<double>();
+      std::string id = node.at("id");
+      double x = node.at("x").get<double>();
+      double y = node.at("y").get<double>();
       nodes.push_back(Node{color, id, x, y});
     }
   }
@@ -110,8 +110,8 @@ int main(int argc, char **argv) {
       continue;
     }
     for (auto const &edge : topology["connections"][type]) {
-      std::string from = edge["from"];
-      std::string to = edge["to"];
+      std::string from = edge.at("from");
+      std::string to = edge.at("to");
 
       outstream << "\\draw[line width=6pt](" << from << ")--(" << to << ");\n";
     }
@@ -119,6 +119,11 @@ int main(int argc, char **argv) {
 
   outstream << "\\end{tikzpicture}\n"
             << "\\end{document}\n";
+  outstream.close();
+  if (outstream.fail()) {
+    std::cout << "The file " << texfile << " could not be written!" << std::endl;
+    return 1;
+  }
 
   //   for (auto &comptype : input) { // nodes and connections
   //     if (not comptype.contains(from_category)) {
diff --git a/helper_functions/draw_heatmap_gaslib.cpp b/helper_functions/draw_heatmap_gaslib.cpp
index d288e75..a7c37c3 100644
--- a/helper_functions/draw_heatmap_gaslib.cpp
+++ b/helper_functions/draw_heatmap_gaslib.cpp
@@ -120,9 +120,9 @@ int main(int argc, char **argv) {
     }
     auto color = colorchooser(type);
     for (auto const &node : topology["nodes"][type]) {
-      std::string id = node["id"];
-      double x = node["x"].get<double>();
-      double y = node["y"].get<double>();
+      std::string id = node.at("id");
+      double x = node.at("x").get<double>();
+      double y = node.at("y").get<double>();
       nodes.push_back(Node{color, id, x, y});
     }
   }
@@ -204,8 +204,8 @@ int main(int argc, char **argv) {
       //   std::cout << topology["connections"][type].back().dump(1, '\t');
       //   done = true;
       // }
-      std::string from = edge["from"];
-      std::string to = edge["to"];
+      std::string from = edge.at("from");
+      std::string to = edge.at("to");
       double value = min;
       if (not edge.contains("results")) {
         throw std::runtime_error("no results!!");
@@ -232,6 +232,11 @@ int main(int argc, char **argv) {
 
   outstream << "\\end{tikzpicture}\n"
             << "\\end{document}\n";
+  outstream.close();
+  if (outstream.fail()) {
+    std::cout << "The file " << texfile << " could not be written!" << std::endl;
+    return 1;
+  }
 }
 
 std::string colorchooser(std::string const &type) {
diff --git a/helper_functions/draw_heatmap_power.cpp b/helper_functions/draw_heatmap_power.cpp
index 016cb19..080efa5 100644
--- a/helper_functions/draw_heatmap_power.cpp
+++ b/helper_functions/draw_heatmap_power.cpp
@@ -128,9 +128,9 @@ int main(int argc, char **argv) {
                    + std::to_string(rgbcolor.g) + ";blue,"
                    + std::to_string(rgbcolor.b) + "}";
       //////////////////////////////////////////
-      std::string id = node["id"];
-      double x = node["x"].get<double>();
-      double y = node["y"].get<double>();
+      std::string id = node.at("id");
+      double x = node.at("x").get<double>();
+      double y = node.at("y").get<double>();
       nodes.push_back(Node{color, id, x, y});
     }
 
@@ -214,14 +214,19 @@ int main(int argc, char **argv) {
     }
     // bool done = false;
     for (auto const &edge : topology["connections"][type]) {
-      std::string from = edge["from"];
-      std::string to = edge["to"];
+      std::string from = edge.at("from");
+      std::string to = edge.at("to");
       outstream << "\\draw[line width=5pt](" << from << ")--(" << to << ");\n";
     }
   }
 
   outstream << "\\end{tikzpicture}\n"
             << "\\end{document}\n";
+  outstream.close();
+  if (outstream.fail()) {
+    std::cout << "The file " << texfile << " could not be written!" << std::endl;
+    return 1;
+  }
 }
 
 std::string colorchooser(std::string const &type) {
diff --git a/helper_functions/draw_power_graph.cpp b/helper_functions/draw_power_graph.cpp
index 9109d49..cf55630 100644
--- a/helper_functions/draw_power_graph.cpp
+++ b/helper_functions/draw_power_graph.cpp
@@ -77,9 +77,9 @@ int main(int argc, char **argv) {
     for (auto const &node : topology["nodes"][type]) {
 
       //////////////////////////////////////////
-      std::string id = node["id"];
-      double x = node["x"].get<double>();
-      double y = node["y"].get<double>();
+      std::string id = node.at("id");
+      double x = node.at("x").get<double>();
+      double y = node.at("y").get<double>();
       nodes.push_back(Node{color, id, x, y});
     }
 
@@ -119,14 +119,19 @@ int main(int argc, char **argv) {
     }
     // bool done = false;
     for (auto const &edge : topology["connections"][type]) {
-      std::string from = edge["from"];
-      std::string to = edge["to"];
+      std::string from = edge.at("from");
+      std::string to = edge.at("to");
       outstream << "\\draw[line width=5pt](" << from << ")--(" << to << ");\n";
     }
   }
 
   outstream << "\\end{tikzpicture}\n"
             << "\\end{document}\n";
+  outstream.close();
+  if (outstream.fail()) {
+    std::cout << "The file " << texfile << " could not be written!" << std::endl;
+    return 1;
+  }
 }
 
 std::string colorchooser(std::string const &type) {
-- 
2.43.0

