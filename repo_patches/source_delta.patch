From 67a06c5fcbca3a7f91d14545df38c2a0d76709af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:14 +0000
Subject: [PATCH 01/24] fix: report a range as satisfiable whenever it contains
 its start

---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index e38052d..489991f 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -401,7 +401,7 @@ namespace nil {
                 : start(start), finish(finish_), step(step) {}
 
             bool is_satisfiable() override {
-                return start < finish && std::abs(start - finish) >= int(start % step);
+                return start < finish;
             }
 
             bool check_manifest_param(std::uint32_t value, bool strict = true) override {
-- 
2.43.0


From 89b7a322d0001019953b253e8fbce95bb3fa7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:21 +0000
Subject: [PATCH 02/24] fix: take the range start into account when computing
 its largest value

---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 489991f..2eb6a34 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -436,7 +436,7 @@ namespace nil {
             }
 
             std::uint32_t max_value_if_sat() const override {
-                return finish - ((finish % step) ? (finish % step) : step);
+                return finish - 1 - (finish - 1 - start) % step;
             }
 
             // Isn't strict equality: some ranges are isomorphic, and we don't check that.
-- 
2.43.0


From 8b9f314f1c2d9bba9189a303ae85b365c9c88497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:27 +0000
Subject: [PATCH 03/24] fix: compare with the smallest element in the
 non-strict check of a set

---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 2eb6a34..0fc0e7a 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -461,7 +461,7 @@ namespace nil {
                 if (strict) {
                     return set.find(value) != set.end();
                 } else {
-                    return set.lower_bound(value) != set.end();
+                    return !set.empty() && *set.begin() <= value;
                 }
             }
 
-- 
2.43.0


From 87407410f081eda6bc620b37e953d322d03cb772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:33 +0000
Subject: [PATCH 04/24] fix: iterate zero times over an empty range

---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 0fc0e7a..f56586e 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -423,7 +423,7 @@ namespace nil {
             }
 
             manifest_param_iterator begin() const override {
-                return manifest_param_iterator(this, start);
+                return manifest_param_iterator(this, start < finish ? start : finish);
             }
 
             manifest_param_iterator end() const override {
-- 
2.43.0


From 30224ceec412851fc43651d032c72fd1327c5b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:39 +0000
Subject: [PATCH 05/24] fix: intersect ranges with equal steps only if they are
 aligned

---
 include/nil/blueprint/manifest.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index f56586e..99eb94e 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -728,6 +728,9 @@ namespace nil {
                 std::uint32_t other_step = other_range->step;
                 std::int32_t new_start, new_finish, new_step;
                 if (step == other_step) {
+                    if (start % step != other_start % step) {
+                        return std::shared_ptr<manifest_param>(new manifest_unsat_param());
+                    }
                     new_start = std::max(start, other_start);
                     new_finish = std::min(finish, other_finish);
                     new_step = step;
-- 
2.43.0


From 424b3a8d57b71c1ba4b05f7a426734685579a614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:46 +0000
Subject: [PATCH 06/24] fix: keep the last remaining value when subtracting
 from the end of a range

---
 include/nil/blueprint/manifest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 99eb94e..1c1a168 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -807,7 +807,7 @@ namespace nil {
 
                 bool end_contigious = false;
                 count = 0;
-                curr_value = finish - finish % step;
+                curr_value = max_value_if_sat();
                 for (auto it = filtered_set.rbegin(); it != filtered_set.rend(); it++) {
                     if (*it != std::uint32_t(curr_value)) {
                         break;
@@ -819,7 +819,7 @@ namespace nil {
                 end_contigious = count == filtered_set.size();
                 if (end_contigious) {
                     if (curr_value > start) {
-                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value, step));
+                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value + 1, step));
                     } else if (curr_value == start) {
                         return std::shared_ptr<manifest_param>(new manifest_single_value_param(start));
                     } else {
-- 
2.43.0


From e16dddaeba19ea1854efe4ab8eebf89c92714fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:53 +0000
Subject: [PATCH 07/24] fix: merging with an empty range or set is
 unsatisfiable

---
 include/nil/blueprint/manifest.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 1c1a168..68cf41c 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -541,7 +541,7 @@ namespace nil {
                                 std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!is_satisfiable() || !other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 auto other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
@@ -579,7 +579,7 @@ namespace nil {
         inline std::shared_ptr<manifest_param> manifest_set_param::merge_with(std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!is_satisfiable() || !other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 auto other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
@@ -636,7 +636,7 @@ namespace nil {
         inline std::shared_ptr<manifest_param> manifest_range_param::merge_with(std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!is_satisfiable() || !other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 std::uint32_t other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
-- 
2.43.0


From 896ecf6b5e4eeb4a37ec2f719a615e29420b75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:45:59 +0000
Subject: [PATCH 08/24] fix: align merged values to the range they come from

---
 include/nil/blueprint/manifest.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 68cf41c..9d47b3a 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -439,6 +439,13 @@ namespace nil {
                 return finish - 1 - (finish - 1 - start) % step;
             }
 
+            // Smallest value of the range which is not less than the passed one, as if the range had no end.
+            std::uint32_t first_not_less(std::uint32_t value) const {
+                return value <= std::uint32_t(start)
+                    ? start
+                    : value + (step - (value - std::uint32_t(start)) % step) % step;
+            }
+
             // Isn't strict equality: some ranges are isomorphic, and we don't check that.
             bool operator==(const manifest_range_param& other) const {
                 return start == other.start && finish == other.finish && step == other.step;
@@ -563,9 +570,7 @@ namespace nil {
                 return std::shared_ptr<manifest_param>(new manifest_set_param(new_set));
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    this->value + (range->step - (this->value % range->step)) % range->step,
-                    range->start);
+                std::uint32_t new_start = range->first_not_less(this->value);
                 if (new_start < std::uint32_t(range->finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, range->finish, range->step));
@@ -621,7 +626,7 @@ namespace nil {
                     new_set.insert(*it);
                 }
                 std::uint32_t step = range->step;
-                for (auto it = new_start + (step - new_start % step) % step; std::int32_t(it) < range->finish; it += step) {
+                for (auto it = range->first_not_less(new_start); std::int32_t(it) < range->finish; it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
@@ -640,9 +645,7 @@ namespace nil {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 std::uint32_t other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    other_value + (step - (other_value % step)) % step,
-                    start);
+                std::uint32_t new_start = first_not_less(other_value);
                 if (new_start < std::uint32_t(finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, finish, step));
@@ -658,7 +661,7 @@ namespace nil {
                 for (auto it = other_set->set.lower_bound(new_start); it !=  other_set->set.end(); it++) {
                     new_set.insert(*it);
                 }
-                for (auto it = new_start + (step - new_start % step) % step; it < std::uint32_t(finish); it += step) {
+                for (auto it = first_not_less(new_start); it < std::uint32_t(finish); it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
-- 
2.43.0


From ea9b2f1f11878b4fb9b16b697e9168eb05a89bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:07 +0000
Subject: [PATCH 09/24] fix: do not dereference the end of a set lying below
 the merged range

---
 include/nil/blueprint/manifest.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 9d47b3a..ef56fc8 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -618,9 +618,8 @@ namespace nil {
                 }
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *set.lower_bound(range->start),
-                    range->start);
+                auto first = set.lower_bound(range->start);
+                std::uint32_t new_start = first != set.end() ? *first : range->start;
                 std::set<std::uint32_t> new_set = {new_start};
                 for (auto it = set.lower_bound(new_start); it != set.end(); it++) {
                     new_set.insert(*it);
@@ -654,9 +653,8 @@ namespace nil {
                 }
             } else if (other_type == type::SET) {
                 auto other_set = dynamic_cast<manifest_set_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *other_set->set.lower_bound(start),
-                    start);
+                auto first = other_set->set.lower_bound(start);
+                std::uint32_t new_start = first != other_set->set.end() ? *first : start;
                 std::set<std::uint32_t> new_set = {new_start};
                 for (auto it = other_set->set.lower_bound(new_start); it !=  other_set->set.end(); it++) {
                     new_set.insert(*it);
-- 
2.43.0


From 07ccde779c130b78cc4e9f3925b6d30de4226183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:15 +0000
Subject: [PATCH 10/24] fix: merge ranges with equal steps into a range only if
 they are aligned

---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index ef56fc8..66e9b0e 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -674,7 +674,7 @@ namespace nil {
                     other_range->start);
                 // technically, there are some other cases there this might be resolved as range
                 // this might be good enough though
-                if (step == other_range->step) {
+                if (step == other_range->step && start % step == other_range->start % step) {
                     std::int32_t new_finish = std::max(finish, other_range->finish);
                     if (new_start < new_finish) {
                         return std::shared_ptr<manifest_param>(
-- 
2.43.0


From 7bdb5c6769006ac1ec4bf70b6fb43428a895192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:46:21 +0000
Subject: [PATCH 11/24] fix: include the maximum itself when resetting the
 witness limit

---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 66e9b0e..2760326 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -974,7 +974,7 @@ namespace nil {
 
             void set_max_witness_amount(std::uint32_t max) {
                 max_witness_columns = max;
-                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max));
+                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max + 1));
             }
 
             std::uint32_t get_max_witness_amount() const {
-- 
2.43.0


From 53ad05c3cb392ebeffaf884b0483de67259f468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:41 +0000
Subject: [PATCH 12/24] fix: assign every task when all sizes are zero

The search for a threshold starts at the lower bound and stops below twice that
bound.  With only zero-sized tasks both are zero, so no threshold was tried and
the returned assignment was empty.
---
 include/nil/blueprint/detail/huang_lu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/huang_lu.hpp b/include/nil/blueprint/detail/huang_lu.hpp
index bf17350..db6d9b3 100644
--- a/include/nil/blueprint/detail/huang_lu.hpp
+++ b/include/nil/blueprint/detail/huang_lu.hpp
@@ -49,7 +49,7 @@ namespace nil {
                     }
                     std::size_t left = std::max((sum + agent_amount - 1) / agent_amount,
                                                 max_item);
-                    std::size_t right = 2 * left;
+                    std::size_t right = std::max<std::size_t>(2 * left, 1);
                     std::unordered_map<std::size_t, std::size_t> best_assignment;
                     std::unordered_map<std::size_t, std::size_t> assignment;
                     std::list<std::pair<std::size_t, std::size_t>> tasks_remaning;
-- 
2.43.0


From 8270140c2edbc9a789980226066305422a63b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:47 +0000
Subject: [PATCH 13/24] fix: refuse a lookup table text with fewer rows than it
 declares

---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 8e80698..b6636d2 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -83,7 +83,9 @@ namespace nil {
                         column.resize(table_size);
                     }
                     for (std::size_t i = 0; i < table_size; i++) {
-                        std::getline(ist, line);
+                        if (!std::getline(ist, line)) {
+                            return false;
+                        }
                         std::vector<value_type> row;
                         value_vector_parser<decltype(line.begin()), BlueprintFieldType> parser(line_size);
                         boost::spirit::qi::ascii::space_type space;
-- 
2.43.0


From f2eb13ff443974d33904ce60d43eb732f7e57d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:47 +0000
Subject: [PATCH 14/24] fix: allow as many hexadecimal digits as a field
 element has in table texts

---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index b6636d2..688e116 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -55,7 +55,7 @@ namespace nil {
                         using boost::phoenix::construct;
                         using boost::phoenix::val;
                         auto number = uint_parser<integral_type, 16, 1,
-                                                  (BlueprintFieldType::modulus_bits + 16 - 1) / 16>();
+                                                  (BlueprintFieldType::modulus_bits + 4 - 1) / 4>();
                         start = repeat(size)[number];
 
                         boost::spirit::qi::on_error<boost::spirit::qi::fail>(
-- 
2.43.0


From 3357e0f9c4ce2d989d14617f4cca021a64ddf64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:38 +0000
Subject: [PATCH 15/24] fix: use the component's constant column in the
 multiplication by constant gate

The gate always read constant column 0, while the constant is written to the
column the component was given. With any other column the gate compared the
product against an unrelated cell.
---
 .../algebra/fields/plonk/multiplication_by_constant.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp b/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp
index 1d1855c..395cf25 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp
@@ -182,7 +182,7 @@ namespace nil {
                 using var = typename plonk_mul_by_constant<BlueprintFieldType>::var;
 
                 auto constraint_1 =
-                    var(component.W(0), 0) * var(0, 0, true, var::column_type::constant) - var(component.W(1), 0);
+                    var(component.W(0), 0) * var(component.C(0), 0, true, var::column_type::constant) - var(component.W(1), 0);
 
                 return bp.add_gate(constraint_1);
             }
-- 
2.43.0


From 1918cc108635fa8c37835ab16e708041821d1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:38 +0000
Subject: [PATCH 16/24] fix: count the digits of exponents that are exact
 powers of four

The digit count stopped one digit short for 4, 16, 64 and so on, so the
component was given too few rows for such exponents.
---
 .../components/systems/snark/plonk/flexible/constant_pow.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index cdee480..cf167a2 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -45,7 +45,7 @@ namespace nil {
             std::size_t integral_type_log2(typename BlueprintFieldType::integral_type pow){
                 std::size_t result = 0;
                 typename BlueprintFieldType::integral_type a = 1;
-                while( a < pow ){
+                while( a <= pow ){
                     a *= 2;
                     result++;
                 }
-- 
2.43.0


From 524f3a8689d48ced017cd04912c769ba41fb8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:38 +0000
Subject: [PATCH 17/24] fix: take the constant power from its last used column

When the digits of the exponent filled the last row, the result was read from
the accumulator's initial column instead of the last one.
---
 .../components/systems/snark/plonk/flexible/constant_pow.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index cf167a2..d49920d 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -155,7 +155,7 @@ namespace nil {
                     result_type(const flexible_constant_pow &component, std::size_t start_row_index) {
                         // TODO define output var
                         std::size_t witness_amount = component.witness_amount();
-                        std::size_t last_column_id = component.four_chunks.size()%(witness_amount - 2) + 1;
+                        std::size_t last_column_id = (component.four_chunks.size() - 1)%(witness_amount - 2) + 2;
                         y = var(component.W(last_column_id), start_row_index + component.rows_amount-1, false);
                     }
 
-- 
2.43.0


From 99631fafc226ded8391970305861049374695f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:38 +0000
Subject: [PATCH 18/24] fix: constrain the initial accumulator of the constant
 power component

Nothing tied the first accumulator cell to one, so a prover could scale the
result by choosing another initial value.
---
 .../systems/snark/plonk/flexible/constant_pow.hpp          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index d49920d..3c5e975 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -106,7 +106,9 @@ namespace nil {
                         }
                         std::vector<typename BlueprintFieldType::integral_type> unique_chunks;
                         std::unique_copy(larger_chunks.begin(), larger_chunks.end(), std::back_inserter(unique_chunks));
-                        return unique_chunks.size();
+                        // The gate of the first row also fixes the initial value, so it is never shared.
+                        bool first_repeated = larger_chunks.size() > 1 && larger_chunks[0] == larger_chunks[1];
+                        return unique_chunks.size() + (first_repeated ? 1 : 0);
                     }
                 };
 
@@ -261,6 +263,9 @@ namespace nil {
                     std::vector<constraint_type> constraints;
                     var x_var = var(component.W(0),0,true);
 
+                    if (row == 0) {
+                        constraints.push_back(var(component.W(1), 0, true) - 1);
+                    }
                     for (std::size_t cell = 2; cell < witness_amount; cell++ ) {
                         if (cur < four_chunks.size()) {
                             var cur_var = var(component.W(cell),0,true);
-- 
2.43.0


From 2ec0488cb65cac5be0fee74750202605e5d00283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:38 +0000
Subject: [PATCH 19/24] fix: add the intended constraint for each block of the
 f3 loop

With a width divisible by four the gate for the later blocks repeated the
constraint of the first one, which left those blocks unconstrained.
---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index 21e939d..acc78d1 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -230,7 +230,7 @@ namespace nil {
                         auto constraint_ =
                             var(component.W(j), 0) - var(component.W(j - 4), 0) -
                             (var(component.W(j - 2), 0) - var(component.W(j - 1), 0)) * var(component.W(j - 3), 0);
-                        selectors.push_back(bp.add_gate({constraint_2}));
+                        selectors.push_back(bp.add_gate({constraint_}));
                     }
                 } else if (witness_amount % 4 == 2) {
                     auto constraint_2 = var(component.W(1), 0) - var(component.W(witness_amount - 3), -1) -
-- 
2.43.0


From 654a22b108fe33fff148ef557013dc62670266c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:39:38 +0000
Subject: [PATCH 20/24] fix: do not enable the row-crossing gate on the first
 row of the f3 loop

When all terms fit in one row, the gate that continues from the previous row
was enabled on the first row, where no such row exists.
---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index acc78d1..4a43401 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -353,6 +353,8 @@ namespace nil {
                     }
                     r = component.rows_amount - 1;
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 4 + 1)], row + r);
                     }
                 } else if (witness_amount % 4 == 2) {
@@ -368,6 +370,8 @@ namespace nil {
                     r = component.rows_amount - 1;
                     start_j = 3 - 2 * (r % 2);
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 2 + 1)], row + r);
                     }
                 } else {
@@ -391,6 +395,8 @@ namespace nil {
                         start_j = (3 - x) + (x - 2) * (r % 4 - 1);
                     }
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[j + 1], row + r);
                     }
                 }
-- 
2.43.0


From dab4ddf3659fcca100c670b205b77074220b24b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:55:20 +0000
Subject: [PATCH 21/24] fix: give a gate of one constraint the same identity
 however it is added

A gate made from a single constraint and a gate made from a list holding
that constraint got different comparison values, so adding the same gate
both ways returned two selectors and recorded it twice.
---
 include/nil/blueprint/gate_id.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/gate_id.hpp b/include/nil/blueprint/gate_id.hpp
index 763862f..e7a85f5 100644
--- a/include/nil/blueprint/gate_id.hpp
+++ b/include/nil/blueprint/gate_id.hpp
@@ -230,8 +230,8 @@ namespace nil {
 
             gate_id(const constraint_type constraint) : selector_index(0) {
                 auto value_pair = eval_constraint(constraint);
-                value_1 = value_pair.first;
-                value_2 = value_pair.second;
+                value_1 = values.get_power(0) * value_pair.first;
+                value_2 = values.get_power(0) * value_pair.second;
             }
 
             gate_id(const std::initializer_list<constraint_type> &&constraints) : selector_index(0) {
@@ -337,8 +337,8 @@ namespace nil {
 
             lookup_gate_id(const constraint_type &constraint) : tag_index(0) {
                 auto value_pair = eval_constraint(constraint);
-                value_1 = value_pair.first;
-                value_2 = value_pair.second;
+                value_1 = values.get_power(0) * value_pair.first;
+                value_2 = values.get_power(0) * value_pair.second;
             }
 
             lookup_gate_id(const std::initializer_list<constraint_type> &&constraints) : tag_index(0) {
-- 
2.43.0


From 6eb04505bb44f055d0d9058958e9bda91f843ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:33:17 +0000
Subject: [PATCH 22/24] fix: keep second-row constraints off the first row
 after a one-row operation

An operation selected its second row by looking only at whether the previous
row starts an operation. After a one-row operation that is also true for the
first row of the next one, so its constraints were applied one row too early
and a valid trace was rejected.
---
 include/nil/blueprint/zkevm/zkevm_circuit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/zkevm_circuit.hpp b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
index 5aec158..ec60255 100644
--- a/include/nil/blueprint/zkevm/zkevm_circuit.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
@@ -225,7 +225,8 @@ namespace nil {
                     return state.step_selection.variable();
                 }
                 if (row == opcode_height - 2) {
-                    return state.step_selection.variable(-1);
+                    // the row before might start (and end) another opcode, with this row starting a new one
+                    return state.step_selection.variable(-1) * (1 - state.step_selection.variable());
                 }
                 if (row == 0) {
                     return 1 - height_var * height_var_inv;
-- 
2.43.0


From b580c1a3f4cc77c026ab23ad890174f8def83ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:16:34 +0000
Subject: [PATCH 23/24] fix: reject a quotient whose product with the divisor
 overflows 256 bits

---
 include/nil/blueprint/zkevm/operations/div.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nil/blueprint/zkevm/operations/div.hpp b/include/nil/blueprint/zkevm/operations/div.hpp
index f170a03..8efe45f 100644
--- a/include/nil/blueprint/zkevm/operations/div.hpp
+++ b/include/nil/blueprint/zkevm/operations/div.hpp
@@ -160,6 +160,13 @@ namespace nil {
                 // add constraints for c_2/c_4: c_2 is 0/1, c_4 is 0/1/2/3
                 constraints.push_back(position_1 * c_2 * (c_2 - 1));
                 constraints.push_back(position_1 * c_4 * (c_4 - 1) * (c_4 - 2) * (c_4 - 3));
+                // r * b + q must be equal to a, and not only modulo 2^256
+                constraints.push_back(position_1 * c_3_64);
+                constraints.push_back(position_1 * c_4);
+                constraints.push_back(
+                    position_1 * (r_64_chunks_1[1] * b_64_chunks_1[3] + r_64_chunks_1[2] * b_64_chunks_1[2] +
+                                  r_64_chunks_1[3] * b_64_chunks_1[1] + r_64_chunks_1[2] * b_64_chunks_1[3] +
+                                  r_64_chunks_1[3] * b_64_chunks_1[2] + r_64_chunks_1[3] * b_64_chunks_1[3]));
                 // TODO: figure out how to add lookup constraints to constrain chunks of q
                 // force r = 0 if b = 0
                 constraint_type b_zero = 1 - b_sum_inverse_1 * b_sum_1;
-- 
2.43.0


From f8bd13d4faac30e636b34ea22760af5047dd35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:16:34 +0000
Subject: [PATCH 24/24] fix: keep the remainder of a division below the divisor

---
 include/nil/blueprint/zkevm/operations/div.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/operations/div.hpp b/include/nil/blueprint/zkevm/operations/div.hpp
index 8efe45f..5504326 100644
--- a/include/nil/blueprint/zkevm/operations/div.hpp
+++ b/include/nil/blueprint/zkevm/operations/div.hpp
@@ -203,19 +203,24 @@ namespace nil {
                 // t_i = t_{i+1} + (1 - t_{i+1}) * v_i * (r_i - q_i)
                 // and v_i is inverse or zero of b_i - q_i
                 // first constraint is special as we start from zero: t_{-1} = 0
-                // TODO: figure out how to add lookup constraints to constrain delta
+                // the first (most significant) nonzero delta should be positive: delta - 1 is diff, a 16-bit chunk
+                // TODO: figure out how to add lookup constraints to constrain diff
+                var diff = var_gen(2 * chunk_amount, +1);
                 constraint_type delta = b_chunks_2[chunk_amount - 1] - q_chunks_2[chunk_amount - 1];
                 constraints.push_back(position_2 * b_nonzero * (t[chunk_amount - 1] - v[chunk_amount - 1] * delta));
                 constraints.push_back(position_2 * b_nonzero * v[chunk_amount - 1] * (v[chunk_amount - 1] * delta - 1));
                 constraints.push_back(position_2 * b_nonzero * delta * (v[chunk_amount - 1] * delta - 1));
+                constraint_type first_delta = t[chunk_amount - 1] * delta;
                 for (int32_t i = chunk_amount - 2; i >= 0; i--) {
                     delta = b_chunks_2[i] - q_chunks_2[i];
                     constraints.push_back(position_2 * b_nonzero * (t[i] - t[i + 1] - (1 - t[i + 1]) * v[i] * delta));
                     constraints.push_back(position_2 * b_nonzero * (v[i] * (v[i] * delta - 1)));
                     constraints.push_back(position_2 * b_nonzero * (delta * (v[i] * delta - 1)));
+                    first_delta += (t[i] - t[i + 1]) * delta;
                 }
                 // last t should be 1, as we have a strict inequality
                 constraints.push_back(position_2 * b_nonzero * (t[0] - 1));
+                constraints.push_back(position_2 * b_nonzero * (first_delta - 1 - diff));
 
                 return {{gate_class::MIDDLE_OP, constraints}};
             }
@@ -290,7 +295,12 @@ namespace nil {
                 }
                 // comparison bit calculations
                 bool t_val = false;
+                assignment.witness(witness_cols[2 * chunk_amount], curr_row + 3) = 0;
                 for (int32_t i = chunk_amount - 1; i >= 0; i--) {
+                    if (!t_val && b_chunks[i] > q_chunks[i]) {
+                        assignment.witness(witness_cols[2 * chunk_amount], curr_row + 3) =
+                            b_chunks[i] - q_chunks[i] - 1;
+                    }
                     assignment.witness(witness_cols[i], curr_row + 3) =
                         t_val = t_val || (b_chunks[i] > q_chunks[i]);
                 }
-- 
2.43.0

