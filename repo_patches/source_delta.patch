From 00c10b1b2c5fc8edae901bb6fa414a7ea1e91775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 01/31] fix: treat a short range with an unaligned start as
 satisfiable

A half-open range always contains its start, so it is non-empty exactly when
start < finish. The extra condition rejected ranges such as (2, 3, 3).
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index e38052d..489991f 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -401,7 +401,7 @@ namespace nil {
                 : start(start), finish(finish_), step(step) {}
 
             bool is_satisfiable() override {
-                return start < finish && std::abs(start - finish) >= int(start % step);
+                return start < finish;
             }
 
             bool check_manifest_param(std::uint32_t value, bool strict = true) override {
-- 
2.43.0


From 0b08486c6cd60e9b4ecf75d36a61ede13f19f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 02/31] fix: compute the range maximum relative to the range
 start

The largest element was computed as if every range started at a multiple of
its step, so (4, 5, 3) reported 3.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 489991f..2eb6a34 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -436,7 +436,7 @@ namespace nil {
             }
 
             std::uint32_t max_value_if_sat() const override {
-                return finish - ((finish % step) ? (finish % step) : step);
+                return finish - 1 - (finish - 1 - start) % step;
             }
 
             // Isn't strict equality: some ranges are isomorphic, and we don't check that.
-- 
2.43.0


From b4a1f3bac11cdf8bab72e06283fbffe92849482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 03/31] fix: make the relaxed set check accept widths that are
 large enough

A relaxed check asks whether some declared width fits into the given one.
The set variant asked the opposite question.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 2eb6a34..0fc0e7a 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -461,7 +461,7 @@ namespace nil {
                 if (strict) {
                     return set.find(value) != set.end();
                 } else {
-                    return set.lower_bound(value) != set.end();
+                    return !set.empty() && *set.begin() <= value;
                 }
             }
 
-- 
2.43.0


From b28b50299bfebebf45ccd71c49d9f34e286e497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 04/31] fix: intersect equal-step ranges only when their phases
 agree

Ranges such as (0, 9, 2) and (1, 9, 2) have no common element.
---
 include/nil/blueprint/manifest.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 0fc0e7a..9168450 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -728,6 +728,9 @@ namespace nil {
                 std::uint32_t other_step = other_range->step;
                 std::int32_t new_start, new_finish, new_step;
                 if (step == other_step) {
+                    if ((std::max(start, other_start) - std::min(start, other_start)) % step != 0) {
+                        return std::shared_ptr<manifest_param>(new manifest_unsat_param());
+                    }
                     new_start = std::max(start, other_start);
                     new_finish = std::min(finish, other_finish);
                     new_step = step;
-- 
2.43.0


From b1bd5a0e1c2ac7163a8325696deb5ad57f76d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 05/31] fix: subtract values at the end of a range exactly

The scan started from a value that need not belong to the range, and the
resulting half-open range lost its last remaining element.
---
 include/nil/blueprint/manifest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 9168450..5f9a1a7 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -807,7 +807,7 @@ namespace nil {
 
                 bool end_contigious = false;
                 count = 0;
-                curr_value = finish - finish % step;
+                curr_value = max_value_if_sat();
                 for (auto it = filtered_set.rbegin(); it != filtered_set.rend(); it++) {
                     if (*it != std::uint32_t(curr_value)) {
                         break;
@@ -819,7 +819,7 @@ namespace nil {
                 end_contigious = count == filtered_set.size();
                 if (end_contigious) {
                     if (curr_value > start) {
-                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value, step));
+                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value + 1, step));
                     } else if (curr_value == start) {
                         return std::shared_ptr<manifest_param>(new manifest_single_value_param(start));
                     } else {
-- 
2.43.0


From e9595b33a8aa0e68f07f7420fa1126b923779f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 06/31] fix: merge ranges relative to their own start

Merging a range aligned its elements to multiples of the step, so ranges with
an unaligned start produced widths that neither side had declared.
---
 include/nil/blueprint/manifest.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 5f9a1a7..3bfd339 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -435,6 +435,14 @@ namespace nil {
                 return (prev_value + step < std::uint32_t(finish)) ? (prev_value + step) : finish;
             }
 
+            // Smallest element of the progression start, start + step, ... which is not less than value.
+            std::uint32_t first_not_less(std::uint32_t value) const {
+                if (std::int32_t(value) <= start) {
+                    return start;
+                }
+                return start + (value - start + step - 1) / step * step;
+            }
+
             std::uint32_t max_value_if_sat() const override {
                 return finish - 1 - (finish - 1 - start) % step;
             }
@@ -563,9 +571,7 @@ namespace nil {
                 return std::shared_ptr<manifest_param>(new manifest_set_param(new_set));
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    this->value + (range->step - (this->value % range->step)) % range->step,
-                    range->start);
+                std::uint32_t new_start = range->first_not_less(this->value);
                 if (new_start < std::uint32_t(range->finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, range->finish, range->step));
@@ -621,7 +627,7 @@ namespace nil {
                     new_set.insert(*it);
                 }
                 std::uint32_t step = range->step;
-                for (auto it = new_start + (step - new_start % step) % step; std::int32_t(it) < range->finish; it += step) {
+                for (auto it = range->first_not_less(new_start); std::int32_t(it) < range->finish; it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
@@ -640,9 +646,7 @@ namespace nil {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 std::uint32_t other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    other_value + (step - (other_value % step)) % step,
-                    start);
+                std::uint32_t new_start = first_not_less(other_value);
                 if (new_start < std::uint32_t(finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, finish, step));
@@ -658,7 +662,7 @@ namespace nil {
                 for (auto it = other_set->set.lower_bound(new_start); it !=  other_set->set.end(); it++) {
                     new_set.insert(*it);
                 }
-                for (auto it = new_start + (step - new_start % step) % step; it < std::uint32_t(finish); it += step) {
+                for (auto it = first_not_less(new_start); it < std::uint32_t(finish); it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
@@ -673,7 +677,8 @@ namespace nil {
                     other_range->start);
                 // technically, there are some other cases there this might be resolved as range
                 // this might be good enough though
-                if (step == other_range->step) {
+                if (step == other_range->step &&
+                    (new_start - std::min(start, other_range->start)) % step == 0) {
                     std::int32_t new_finish = std::max(finish, other_range->finish);
                     if (new_start < new_finish) {
                         return std::shared_ptr<manifest_param>(
-- 
2.43.0


From 70f49d8ab39f19a8507fb994d243eced90c2003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 07/31] fix: do not dereference the end of a set when merging
 with a range

A set whose elements all lie below the range start has no lower bound.
---
 include/nil/blueprint/manifest.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 3bfd339..3e67dc6 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -619,9 +619,8 @@ namespace nil {
                 }
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *set.lower_bound(range->start),
-                    range->start);
+                auto first = set.lower_bound(range->start);
+                std::uint32_t new_start = first != set.end() ? *first : range->start;
                 std::set<std::uint32_t> new_set = {new_start};
                 for (auto it = set.lower_bound(new_start); it != set.end(); it++) {
                     new_set.insert(*it);
@@ -655,9 +654,8 @@ namespace nil {
                 }
             } else if (other_type == type::SET) {
                 auto other_set = dynamic_cast<manifest_set_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *other_set->set.lower_bound(start),
-                    start);
+                auto first = other_set->set.lower_bound(start);
+                std::uint32_t new_start = first != other_set->set.end() ? *first : start;
                 std::set<std::uint32_t> new_set = {new_start};
                 for (auto it = other_set->set.lower_bound(new_start); it !=  other_set->set.end(); it++) {
                     new_set.insert(*it);
-- 
2.43.0


From a8b73d41792621e45ff56fc649f740d0e170d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:34 +0000
Subject: [PATCH 08/31] fix: include the maximum in the compiler manifest
 setter

The range is half-open; the constructor already accounts for that.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 3e67dc6..b03c101 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -976,7 +976,7 @@ namespace nil {
 
             void set_max_witness_amount(std::uint32_t max) {
                 max_witness_columns = max;
-                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max));
+                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max + 1));
             }
 
             std::uint32_t get_max_witness_amount() const {
-- 
2.43.0


From 98e95111f708ef31e99d3fb39e4ad25343fa4555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:56 +0000
Subject: [PATCH 09/31] fix: bit_decomposition dry run stays within the
 component's columns

The empty assignment always spread the bits over nine columns. With fewer
witness columns the bits were written past the component's last column and
the returned variables did not hold them.
---
 .../plonk/non_native/bit_decomposition.hpp    | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
index 544ad56..03e1b11 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
@@ -99,12 +99,18 @@ namespace nil {
                     return component_type::get_rows_amount(witness_amount, bits_amount, true);
                 }
 
-                constexpr static std::size_t get_empty_rows_amount(std::size_t bits_amount, bit_composition_mode mode) {
-                    return bits_amount / 9 + (bits_amount % 9 != 0);
+                constexpr static std::size_t get_empty_columns_amount(std::size_t witness_amount) {
+                    return witness_amount < 9 ? witness_amount : 9;
+                }
+
+                constexpr static std::size_t get_empty_rows_amount(std::size_t witness_amount,
+                                                                   std::size_t bits_amount, bit_composition_mode mode) {
+                    return (bits_amount + get_empty_columns_amount(witness_amount) - 1) /
+                           get_empty_columns_amount(witness_amount);
                 }
 
                 const bit_composition_mode mode;
-                const std::size_t empty_rows_amount = get_empty_rows_amount(this->bits_amount, this->mode);
+                const std::size_t empty_rows_amount = get_empty_rows_amount(this->witness_amount(), this->bits_amount, this->mode);
                 const std::string component_name = "bit_decomposition";
 
                 struct input_type {
@@ -133,9 +139,10 @@ namespace nil {
                     }
                     result_type(const bit_decomposition &component, std::uint32_t start_row_index, bool skip) {
                         output.resize(component.bits_amount);
+                        const std::size_t columns = get_empty_columns_amount(component.witness_amount());
 
                         for (std::size_t i = 0; i < component.bits_amount; i++) {
-                            output[i] = var(component.W(i % 9), start_row_index + i / 9, false);
+                            output[i] = var(component.W(i % columns), start_row_index + i / columns, false);
                         }
                     }
 
@@ -253,8 +260,10 @@ namespace nil {
 
                 std::vector<bool> bits = component_type::calculate(input_data, component.bits_amount, component.mode);
 
+                const std::size_t columns = component_type::get_empty_columns_amount(component.witness_amount());
                 for (std::size_t i = 0; i < component.bits_amount; i++) {
-                    assignment.witness(component.W(i % 9), start_row_index + i / 9) = value_type(bits[i] ? 1 : 0);
+                    assignment.witness(component.W(i % columns), start_row_index + i / columns) =
+                        value_type(bits[i] ? 1 : 0);
                 }
 
                 return typename plonk_bit_decomposition<BlueprintFieldType>::result_type(
-- 
2.43.0


From d97b507dc791fa1a94aee04255364c3c3598cdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:56 +0000
Subject: [PATCH 10/31] fix: comparison_flag constrains the first chunk where
 it is stored

When the padding fills all but the last chunk pair of a gate instance, the
first chunks are stored in the first two columns. The range constraint for
sizes that are not a multiple of the chunk size used the columns after the
last pair instead, so numbers of more than bits_amount bits were accepted.
---
 .../algebra/fields/plonk/non_native/comparison_flag.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index 44dee4f..dee8bec 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -769,12 +769,16 @@ namespace nil {
                     // we don't check that x and y fit into 2^{bits_amount}.
                     std::vector<constraint_type> first_chunk_range_constraints;
 
-                    var size_constraint_var = var(component.W(3 + 2 * component.padding_size), 0, true);
+                    // The last chunk pair of a gate instance is stored in the first two columns.
+                    const std::size_t first_chunk_column =
+                        component.padding_size + 1 == component.comparisons_per_gate_instance ?
+                            0 : 3 + 2 * component.padding_size;
+                    var size_constraint_var = var(component.W(first_chunk_column), 0, true);
                     constraint_type first_chunk_range_constraint = generate_chunk_size_constraint(
                         size_constraint_var, component.bits_amount % component.chunk_size);
                     first_chunk_range_constraints.push_back(first_chunk_range_constraint);
 
-                    size_constraint_var = var(component.W(3 + 2 * component.padding_size + 1), 0, true);
+                    size_constraint_var = var(component.W(first_chunk_column + 1), 0, true);
                     first_chunk_range_constraint =
                         generate_chunk_size_constraint(size_constraint_var,
                                                        component.bits_amount % component.chunk_size);
-- 
2.43.0


From ffe5b179448e45761aa4f14cf5c2aa43f8196611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:20 +0000
Subject: [PATCH 11/31] fix: enable the selectors of the generated flexible
 poseidon gates

The loop enabled selectors 0, 1, 2, ... instead of the selectors returned
by generate_gates, so the hash was not constrained when the circuit
already had other gates.
---
 .../components/systems/snark/plonk/flexible/poseidon.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
index ea05f3a..22b6339 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
@@ -328,7 +328,7 @@ namespace nil {
 
                 auto selector_indices = generate_gates(component, bp, assignment, instance_input);
                 for( std::size_t i = 0; i < selector_indices.size(); i++){
-                    assignment.enable_selector(i, start_row_index+i);
+                    assignment.enable_selector(selector_indices[i], start_row_index+i);
                 }
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
-- 
2.43.0


From d848f2b69c733ffce74ad2ba8b9d682948e5a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:20 +0000
Subject: [PATCH 12/31] fix: count the base-four digits of powers of four in
 constant_pow

The number of bits of an exact power of two was one too small, so the
component had too few rows for exponents such as 1, 4 or 64.
---
 .../components/systems/snark/plonk/flexible/constant_pow.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index cdee480..cf167a2 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -45,7 +45,7 @@ namespace nil {
             std::size_t integral_type_log2(typename BlueprintFieldType::integral_type pow){
                 std::size_t result = 0;
                 typename BlueprintFieldType::integral_type a = 1;
-                while( a < pow ){
+                while( a <= pow ){
                     a *= 2;
                     result++;
                 }
-- 
2.43.0


From 4e0498871bcce8537cb8dde103eeccb0f3097560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:20 +0000
Subject: [PATCH 13/31] fix: report the last cell as the result of constant_pow
 for full rows

When the digits of the exponent filled the last row the result pointed to
the start of that row.
---
 .../components/systems/snark/plonk/flexible/constant_pow.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index cf167a2..d49920d 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -155,7 +155,7 @@ namespace nil {
                     result_type(const flexible_constant_pow &component, std::size_t start_row_index) {
                         // TODO define output var
                         std::size_t witness_amount = component.witness_amount();
-                        std::size_t last_column_id = component.four_chunks.size()%(witness_amount - 2) + 1;
+                        std::size_t last_column_id = (component.four_chunks.size() - 1)%(witness_amount - 2) + 2;
                         y = var(component.W(last_column_id), start_row_index + component.rows_amount-1, false);
                     }
 
-- 
2.43.0


From bf3ca61b86d50790925e7741c25437960a44802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:20 +0000
Subject: [PATCH 14/31] fix: constrain the initial accumulator of constant_pow

The cell that holds 1 at the start of the chain was not constrained, so a
prover could choose the result. The first digit is now constrained
without it. The declared number of gates counts the distinct rows.
---
 .../snark/plonk/flexible/constant_pow.hpp     | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index d49920d..32a6c8c 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -94,19 +94,13 @@ namespace nil {
                         // related to pow
                         std::size_t one_row_cells = _witness_amount-2;
                         std::vector<std::size_t> four_chunks = integral_type_four_chunks<BlueprintFieldType>(_pow);
-                        std::vector<typename BlueprintFieldType::integral_type> larger_chunks;
-                        std::size_t cur = 0;
-                        for(std::size_t i = 0; i < four_chunks.size(); i++){
-                            if ( i%one_row_cells == 0 ){
-                                larger_chunks.push_back(0);
-                                cur++;
-                            }
-                            larger_chunks[cur-1] *= 4;
-                            larger_chunks[cur-1] += four_chunks[i];
+                        // the first row has a gate of its own, equal later rows share one
+                        std::set<std::vector<std::size_t>> unique_rows;
+                        for (std::size_t i = one_row_cells; i < four_chunks.size(); i += one_row_cells) {
+                            std::size_t end = std::min(i + one_row_cells, four_chunks.size());
+                            unique_rows.insert(std::vector<std::size_t>(four_chunks.begin() + i, four_chunks.begin() + end));
                         }
-                        std::vector<typename BlueprintFieldType::integral_type> unique_chunks;
-                        std::unique_copy(larger_chunks.begin(), larger_chunks.end(), std::back_inserter(unique_chunks));
-                        return unique_chunks.size();
+                        return 1 + unique_rows.size();
                     }
                 };
 
@@ -264,7 +258,11 @@ namespace nil {
                     for (std::size_t cell = 2; cell < witness_amount; cell++ ) {
                         if (cur < four_chunks.size()) {
                             var cur_var = var(component.W(cell),0,true);
-                            constraints.push_back(var(component.W(cell), 0, true) -  var(component.W(cell-1),0,true).pow(4) * x_var.pow(four_chunks[cur]));
+                            if (cur == 0) {
+                                constraints.push_back(var(component.W(cell), 0, true) - x_var.pow(four_chunks[cur]));
+                            } else {
+                                constraints.push_back(var(component.W(cell), 0, true) -  var(component.W(cell-1),0,true).pow(4) * x_var.pow(four_chunks[cur]));
+                            }
                             cur++;
                         } else {
                             break;
-- 
2.43.0


From 635c15302204fe08ba4d25a282fb3cd45e990def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:40:44 +0000
Subject: [PATCH 15/31] fix: constrain the starting values of endo_scalar

The first row's n, a and b were assigned 0, 2 and 2 but nothing in the circuit
fixed them, so any result could be proven for any scalar.
---
 .../algebra/curves/pasta/plonk/endo_scalar.hpp      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp
index e3d549e..5b2a9a7 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp
@@ -120,7 +120,7 @@ namespace nil {
                     const std::size_t scalar_size;
 
                     const std::size_t rows_amount = get_rows_amount(this->witness_amount());
-                    static constexpr std::size_t gates_amount = 2;
+                    static constexpr std::size_t gates_amount = 3;
 
                     constexpr static const typename BlueprintFieldType::value_type endo_r = endo_params::endo_r;
                     constexpr static const typename CurveType::base_field_type::value_type endo_q = endo_params::endo_q;
@@ -182,12 +182,13 @@ namespace nil {
                         const typename plonk_endo_scalar<BlueprintFieldType, CurveType>::input_type instance_input,
                         const std::uint32_t start_row_index) {
 
-                        std::array<std::size_t, 2> selector_indices =
+                        std::array<std::size_t, 3> selector_indices =
                             generate_gates(component, bp, assignment, instance_input);
 
                         std::size_t j = start_row_index;
                         assignment.enable_selector(selector_indices[0], j, j + component.rows_amount - 1);
                         assignment.enable_selector(selector_indices[1], j + component.rows_amount - 1);
+                        assignment.enable_selector(selector_indices[2], j);
 
                         generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
@@ -273,7 +274,7 @@ namespace nil {
                     }
 
                     template<typename BlueprintFieldType, typename CurveType>
-                    std::array<std::size_t, 2> generate_gates(
+                    std::array<std::size_t, 3> generate_gates(
                         const plonk_endo_scalar<BlueprintFieldType, CurveType> &component,
                         circuit<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &bp,
                         assignment<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &assignment,
@@ -339,7 +340,11 @@ namespace nil {
 
                         std::size_t selector_index_2 = bp.add_gate({constraint_12});
 
-                        return {selector_index_1, selector_index_2};
+                        // the first row starts from n = 0, a = b = 2
+                        std::size_t selector_index_3 = bp.add_gate(
+                            {var(component.W(0), 0), var(component.W(2), 0) - 2, var(component.W(3), 0) - 2});
+
+                        return {selector_index_1, selector_index_2, selector_index_3};
                     }
 
                     template<typename BlueprintFieldType, typename CurveType>
-- 
2.43.0


From db157d33facce877584db2a1587b093b67cfd61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:40:44 +0000
Subject: [PATCH 16/31] fix: address exponentiation cells through the
 component's columns

The starting value of the accumulator was written to a column number without
going through W(), and the constants were looked up in a witness column's
number instead of C(0).
---
 .../components/algebra/fields/plonk/exponentiation.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
index 35584b4..d4c2f84 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
@@ -230,7 +230,7 @@ namespace nil {
 
                         // we use first empty row to unify first row gate with others
                         assignment.witness(component.W(1), start_row_index) = 0u;
-                        assignment.witness(component.intermediate_start + component.intermediate_results_per_row - 1, start_row_index) = 1u;
+                        assignment.witness(component.W(component.intermediate_start + component.intermediate_results_per_row - 1), start_row_index) = 1u;
                         std::size_t start_row_padded = start_row_index + 1;
 
                         std::size_t current_bit = 0;
@@ -325,8 +325,8 @@ namespace nil {
 
                        	using var = typename plonk_exponentiation<BlueprintFieldType, ExponentSize>::var;
 
-                        var zero(component.W(0), start_row_index, false, var::column_type::constant);
-                        var one(component.W(0), start_row_index + 1, false, var::column_type::constant);
+                        var zero(component.C(0), start_row_index, false, var::column_type::constant);
+                        var one(component.C(0), start_row_index + 1, false, var::column_type::constant);
 
                         for (std::size_t row = start_row_index + 1; row < start_row_index + component.rows_amount; row++) {
                             bp.add_copy_constraint({{component.W(0), static_cast<int>(row), false}, instance_input.base});
-- 
2.43.0


From c31cf0897c2d6fa98a8663ea06350c817623b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:22:45 +0000
Subject: [PATCH 17/31] fix: keep constants used by gates when placing batched
 constants

---
 .../blueprint/blueprint/plonk/assignment.hpp  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index df9e40e..8bb3001 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -244,6 +244,16 @@ namespace nil {
                                 variable.index == const_column &&
                                 variable.rotation >= start_row_index;
                     };
+                    // variables of gates are relative to the rows on which the gate is enabled
+                    auto relative_var_check = [const_column](const var &variable) -> bool {
+                        return variable.type == var::column_type::constant && variable.index == const_column;
+                    };
+                    auto mark_used = [&used_constants, start_row_index](std::size_t row, const var &variable) {
+                        const std::size_t index = row + variable.rotation - start_row_index;
+                        if (index < used_constants.size()) {
+                            used_constants[index] = true;
+                        }
+                    };
                     for (const auto &constraint : immutable_copy_constraints) {
                         for (const auto variable : {&(constraint.first), &(constraint.second)}) {
                             if (var_check(*variable)) {
@@ -255,8 +265,8 @@ namespace nil {
                     for (const auto &gate : gates) {
                         std::unordered_set<var> variable_set;
                         std::function<void(var)> variable_extractor =
-                            [&variable_set, &var_check](const var &variable) {
-                                if (var_check(variable)) {
+                            [&variable_set, &relative_var_check](const var &variable) {
+                                if (relative_var_check(variable)) {
                                     variable_set.insert(variable);
                                 }
                             };
@@ -268,7 +278,7 @@ namespace nil {
                             for (std::size_t row = start_row_index - 1;
                                  row < this->selector_column_size(gate.selector_index); row++) {
                                 if (this->selector(gate.selector_index, row) == value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(row, variable);
                                 }
                             }
                         }
@@ -277,8 +287,8 @@ namespace nil {
                     for (const auto &gate : lookup_gates) {
                         std::unordered_set<var> variable_set;
                         std::function<void(var)> variable_extractor =
-                            [&variable_set, &var_check](const var &variable) {
-                                if (var_check(variable)) {
+                            [&variable_set, &relative_var_check](const var &variable) {
+                                if (relative_var_check(variable)) {
                                     variable_set.insert(variable);
                                 }
                             };
@@ -292,7 +302,7 @@ namespace nil {
                             for (std::size_t row = start_row_index - 1;
                                  row < this->selector_column_size(gate.tag_index); row++) {
                                 if (this->selector(gate.tag_index, row) == BlueprintFieldType::value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(row, variable);
                                 }
                             }
                         }
-- 
2.43.0


From b1fae42f50975ae2a4dbcfec2b343558cce875bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:50:55 +0000
Subject: [PATCH 18/31] fix: apply second-row opcode constraints on the second
 row only

The row before the first row of an opcode starts an opcode as well when
that opcode takes a single row. Constraints of the second row were then
enforced on the first one, and honest traces were rejected.
---
 include/nil/blueprint/zkevm/zkevm_circuit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/zkevm_circuit.hpp b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
index 5aec158..80e9e6c 100644
--- a/include/nil/blueprint/zkevm/zkevm_circuit.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
@@ -225,7 +225,8 @@ namespace nil {
                     return state.step_selection.variable();
                 }
                 if (row == opcode_height - 2) {
-                    return state.step_selection.variable(-1);
+                    // the previous row starts an opcode of its own if that opcode takes a single row
+                    return state.step_selection.variable(-1) * (1 - state.step_selection.variable());
                 }
                 if (row == 0) {
                     return 1 - height_var * height_var_inv;
-- 
2.43.0


From 227d8574997f6c0057c6437418424893004663f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:50:55 +0000
Subject: [PATCH 19/31] fix: connect the state selector to its input

generate_circuit never called generate_copy_constraints, so the selected
item was not tied to the index given.
---
 include/nil/blueprint/zkevm/state_selector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nil/blueprint/zkevm/state_selector.hpp b/include/nil/blueprint/zkevm/state_selector.hpp
index 7a4462d..385be83 100644
--- a/include/nil/blueprint/zkevm/state_selector.hpp
+++ b/include/nil/blueprint/zkevm/state_selector.hpp
@@ -267,6 +267,7 @@ namespace nil {
 
                 std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
                 assignment.enable_selector(selector_index, start_row_index, start_row_index);
+                generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
                 return typename component_type::result_type(component, start_row_index);
             }
-- 
2.43.0


From f9505903057e7c6bff04f4c1ab4108faf83d3ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:14 +0000
Subject: [PATCH 20/31] fix: count gates of different configurations of a
 component separately

The comparison of gate manifests goes through the virtual operator<.
Several components declared another overload instead, so all their
configurations counted as one.
---
 .../fields/plonk/non_native/comparison_checked.hpp   | 12 +++++++-----
 .../fields/plonk/non_native/division_remainder.hpp   |  2 +-
 .../fields/plonk/non_native/equality_flag.hpp        |  5 +++--
 .../systems/snark/plonk/flexible/poseidon.hpp        |  5 +++--
 .../systems/snark/plonk/flexible/pow_factor.hpp      |  6 +++---
 .../snark/plonk/placeholder/fri_array_swap.hpp       |  8 +++++---
 include/nil/blueprint/zkevm/state_selector.hpp       |  8 +++++---
 7 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 2fa2b6a..483fd59 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -153,11 +153,13 @@ namespace nil {
                         return comparison_checked::gates_amount_internal(bits_amount, mode);
                     }
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount ||
-                               (witness_amount == other.witness_amount && bits_amount < other.bits_amount) ||
-                               (witness_amount == other.witness_amount &&
-                                bits_amount == other.bits_amount && mode < other.mode);
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return witness_amount < other_casted->witness_amount ||
+                               (witness_amount == other_casted->witness_amount &&
+                                bits_amount < other_casted->bits_amount) ||
+                               (witness_amount == other_casted->witness_amount &&
+                                bits_amount == other_casted->bits_amount && mode < other_casted->mode);
                     }
                 };
 
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
index c940d3d..054efc6 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
@@ -97,7 +97,7 @@ namespace nil {
                         return division_remainder::gates_amount;
                     }
 
-                    bool operator<(const component_gate_manifest *other) {
+                    bool operator<(const component_gate_manifest *other) const override {
                         const gate_manifest_type *other_casted =
                             dynamic_cast<const gate_manifest_type*>(other);
                         return witness_amount < other_casted->witness_amount;
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp
index dfaa530..86285ee 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp
@@ -61,8 +61,9 @@ namespace nil {
                         return equality_flag::gates_amount;
                     }
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return inequality < other.inequality;
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return inequality < other_casted->inequality;
                     }
                 };
 
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
index 22b6339..3c5b399 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
@@ -82,8 +82,9 @@ namespace nil {
                     gate_manifest_type(std::size_t _witness_amount) :
                         witness_amount(_witness_amount) {};
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount;
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return witness_amount < other_casted->witness_amount;
                     }
 
                     std::uint32_t gates_amount() const override {
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
index a9e69d9..8482f13 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
@@ -94,9 +94,9 @@ namespace nil {
                     gate_manifest_type(std::size_t witness_amount_) :
                         witness_amount((witness_amount_ - 10) / 8){};
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount ||
-                               (witness_amount == other.witness_amount);
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return witness_amount < other_casted->witness_amount;
                     }
 
                     std::uint32_t gates_amount() const override {
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
index adeaa84..babe95c 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
@@ -70,9 +70,11 @@ namespace nil {
                     gate_manifest_type(std::size_t witness_amount_, std::size_t half_array_size_) :
                         witness_amount((witness_amount_ - 1) / 4), half_array_size(half_array_size_) {};
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount ||
-                               (witness_amount == other.witness_amount && half_array_size < other.half_array_size);
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return witness_amount < other_casted->witness_amount ||
+                               (witness_amount == other_casted->witness_amount &&
+                                half_array_size < other_casted->half_array_size);
                     }
 
                     std::uint32_t gates_amount() const override {
diff --git a/include/nil/blueprint/zkevm/state_selector.hpp b/include/nil/blueprint/zkevm/state_selector.hpp
index 385be83..e42bbcb 100644
--- a/include/nil/blueprint/zkevm/state_selector.hpp
+++ b/include/nil/blueprint/zkevm/state_selector.hpp
@@ -62,9 +62,11 @@ namespace nil {
                     gate_manifest_type(std::size_t witness_amount_, std::size_t options_amount_) :
                         witness_amount(witness_amount_), options_amount(options_amount_) {};
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount ||
-                               (witness_amount == other.witness_amount && options_amount < other.options_amount);
+                    bool operator<(const component_gate_manifest *other) const override {
+                        const gate_manifest_type *other_casted = dynamic_cast<const gate_manifest_type*>(other);
+                        return witness_amount < other_casted->witness_amount ||
+                               (witness_amount == other_casted->witness_amount &&
+                                options_amount < other_casted->options_amount);
                     }
 
                     std::uint32_t gates_amount() const override {
-- 
2.43.0


From d8de841bb116b16ef831934c1e84e1162ce603dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:14 +0000
Subject: [PATCH 21/31] fix: compute manifests from the parameters of each call

The manifests were static, so the widths allowed for the first
parameters asked about applied to all later ones.
---
 .../algebra/fields/plonk/non_native/comparison_checked.hpp      | 2 +-
 .../algebra/fields/plonk/non_native/comparison_flag.hpp         | 2 +-
 .../blueprint/components/algebra/fields/plonk/range_check.hpp   | 2 +-
 .../components/systems/snark/plonk/flexible/pow_factor.hpp      | 2 +-
 .../systems/snark/plonk/placeholder/fri_array_swap.hpp          | 2 +-
 .../components/systems/snark/plonk/placeholder/fri_cosets.hpp   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 483fd59..0f21f24 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -172,7 +172,7 @@ namespace nil {
 
                 static manifest_type get_manifest(std::size_t bits_amount,
                                                   comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(
                                 3, std::max<std::size_t>(4, (bits_amount + chunk_size - 1) / chunk_size + 1))),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index dee8bec..c907b7f 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -190,7 +190,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount, comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(3, std::max<std::size_t>(4, (bits_amount + 28 - 1) / 28 + 1))),
                         false
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
index 6bf2e22..96cbc00 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
@@ -135,7 +135,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(2, std::max<std::size_t>(3, bits_amount / chunk_size + 2))),
                         true
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
index 8482f13..48e1c0d 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
@@ -112,7 +112,7 @@ namespace nil {
 
                 static manifest_type get_manifest(
                     std::size_t power) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(new manifest_range_param(10, 10 + power / 6 + 1, 8)),
                         true
                     );
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
index babe95c..8111464 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
@@ -89,7 +89,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t half_array_size) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         // TODO: make the manifest depend on half_array_size
                         // this requires the manifest rework
                         std::shared_ptr<manifest_param>(new manifest_range_param(5, 5 + 4 * (half_array_size - 1) + 1, 4)),
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
index 85f13a5..7b8e01a 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
@@ -137,7 +137,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t n, value_type omega) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(9, n * 9 + 1, 9)
                         ),
-- 
2.43.0


From 9da715828edfecc5ef1176a613f59d40123c6c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:04:17 +0000
Subject: [PATCH 22/31] fix: do not claim another proxy's copy constraint

A copy constraint that the circuit drops (equal or private variables)
made the proxy record the last stored constraint as its own.
---
 include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 5373578..0b1f1c7 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -202,8 +202,9 @@ namespace nil {
             }
 
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
+                const std::size_t old_size = circuit_ptr->copy_constraints().size();
                 circuit_ptr->add_copy_constraint(copy_constraint);
-                if (circuit_ptr->copy_constraints().size() > 0) {
+                if (circuit_ptr->copy_constraints().size() > old_size) {
                     used_copy_constraints.insert(circuit_ptr->copy_constraints().size() - 1);
                 }
             }
-- 
2.43.0


From 5998d4fc1d73c88fb2371a45edbe27807a45bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:04:17 +0000
Subject: [PATCH 23/31] fix: forward gates on given selectors and dynamic
 tables through the circuit proxy

These calls ended in the proxy's own empty circuit instead of the
shared one, so the gates and tables were lost.
---
 .../nil/blueprint/blueprint/plonk/circuit.hpp |  2 +-
 .../blueprint/plonk/circuit_proxy.hpp         | 41 +++++++++++++++++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit.hpp b/include/nil/blueprint/blueprint/plonk/circuit.hpp
index 999bf92..21cbbb9 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit.hpp
@@ -201,7 +201,7 @@ namespace nil {
                 _lookup_library.reserve_dynamic_table(name);
             }
 
-            std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
+            virtual std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
                 return _lookup_library.get_dynamic_table_definition(name);
             }
 
diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 0b1f1c7..01760f4 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -169,6 +169,22 @@ namespace nil {
                 return selector_index;
             }
 
+            std::size_t add_gate(std::size_t selector_id, const std::vector<constraint_type> &args) override {
+                const auto selector_index = circuit_ptr->add_gate(selector_id, args);
+                used_gates.insert(circuit_ptr->gates().size() - 1);
+                return selector_index;
+            }
+
+            std::size_t add_lookup_gate(std::size_t selector_id, const std::vector<lookup_constraint_type> &args) override {
+                const auto selector_index = circuit_ptr->add_lookup_gate(selector_id, args);
+                used_lookup_gates.insert(circuit_ptr->lookup_gates().size() - 1);
+                return selector_index;
+            }
+
+            std::size_t get_dynamic_lookup_table_selector() override {
+                return circuit_ptr->get_dynamic_lookup_table_selector();
+            }
+
             const typename ArithmetizationType::lookup_table_type &lookup_table(std::size_t table_id) const override {
                 return circuit_ptr->lookup_table(table_id);
             }
@@ -187,6 +203,26 @@ namespace nil {
                 used_lookup_tables.insert(idx);
             }
 
+            void register_dynamic_table(std::string name) override {
+                circuit_ptr->register_dynamic_table(name);
+            }
+
+            void reserve_dynamic_table(std::string name) override {
+                circuit_ptr->reserve_dynamic_table(name);
+                const auto idx = circuit_ptr->get_reserved_indices().at(name) - 1;
+                used_lookup_tables.insert(idx);
+            }
+
+            std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>>
+                    get_dynamic_table_definition(std::string name) override {
+                return circuit_ptr->get_dynamic_table_definition(name);
+            }
+
+            void define_dynamic_table(std::string name,
+                                      const crypto3::zk::snark::plonk_lookup_table<BlueprintFieldType> &table) override {
+                circuit_ptr->define_dynamic_table(name, table);
+            }
+
             const typename lookup_library<BlueprintFieldType>::left_reserved_type
                     &get_reserved_indices() const override {
                 return circuit_ptr->get_reserved_indices();
@@ -201,6 +237,11 @@ namespace nil {
                 return circuit_ptr->get_reserved_tables();
             }
 
+            const std::map<std::string, std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>>>
+                    &get_reserved_dynamic_tables() const override {
+                return circuit_ptr->get_reserved_dynamic_tables();
+            }
+
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
                 const std::size_t old_size = circuit_ptr->copy_constraints().size();
                 circuit_ptr->add_copy_constraint(copy_constraint);
-- 
2.43.0


From 0ef00b2c1c992ec6c7baa3c28a4bf5501b7d2022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:04:17 +0000
Subject: [PATCH 24/31] fix: export the last selector column of a proxied table

The loop stopped one column early, and did not stop at all without
selectors.
---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 0f26a65..45baf12 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -408,7 +408,7 @@ namespace nil {
                     }
                     os << "| ";
                     // Selectors only need a single bit, so we do not renew the size here
-                    for (std::uint32_t j = 0; j < selectors_size - 1; j++) {
+                    for (std::uint32_t j = 0; j < selectors_size; j++) {
                         os << (i < assignment_ptr->selector_column_size(j) ?
                                assignment_ptr->selector(j, i) : 0).data << " ";
                     }
-- 
2.43.0


From 702134f9925e9c3f76d6c7014b7d87043d3d37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:44 +0000
Subject: [PATCH 25/31] fix: constrain every partial sum of f3_loop when its
 width is a multiple of four

The gates of the later columns repeated the first one, so these sums
were left open.
---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index 21e939d..acc78d1 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -230,7 +230,7 @@ namespace nil {
                         auto constraint_ =
                             var(component.W(j), 0) - var(component.W(j - 4), 0) -
                             (var(component.W(j - 2), 0) - var(component.W(j - 1), 0)) * var(component.W(j - 3), 0);
-                        selectors.push_back(bp.add_gate({constraint_2}));
+                        selectors.push_back(bp.add_gate({constraint_}));
                     }
                 } else if (witness_amount % 4 == 2) {
                     auto constraint_2 = var(component.W(1), 0) - var(component.W(witness_amount - 3), -1) -
-- 
2.43.0


From a598daf60c56c3f7f977808ec42241508790d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:44 +0000
Subject: [PATCH 26/31] fix: do not read the row before f3_loop when it takes a
 single row

The first sum has no predecessor in the last row either, if that is
also the first row.
---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index acc78d1..4a43401 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -353,6 +353,8 @@ namespace nil {
                     }
                     r = component.rows_amount - 1;
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 4 + 1)], row + r);
                     }
                 } else if (witness_amount % 4 == 2) {
@@ -368,6 +370,8 @@ namespace nil {
                     r = component.rows_amount - 1;
                     start_j = 3 - 2 * (r % 2);
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 2 + 1)], row + r);
                     }
                 } else {
@@ -391,6 +395,8 @@ namespace nil {
                         start_j = (3 - x) + (x - 2) * (r % 4 - 1);
                     }
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[j + 1], row + r);
                     }
                 }
-- 
2.43.0


From 1e0887b3a3219cd88333bf7106a69e581cd4a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:28:21 +0000
Subject: [PATCH 27/31] fix: count the rows of all zones a stretched component
 packs into one block

---
 include/nil/blueprint/component_stretcher.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 7ab175f..bcab065 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -269,8 +269,11 @@ namespace nil {
                             }
                         }
                     }
-                    this->rows_amount = std::max_element(zones.zone_sizes.begin(), zones.zone_sizes.end(),
-                                                         [](auto a, auto b) { return a.second < b.second; })->second;
+                    // Several zones can share a block of columns, and constants can end up below all of them
+                    this->rows_amount = *std::max_element(zone_rows.begin(), zone_rows.end());
+                    for (auto &[old_row, new_row] : constant_remapping) {
+                        this->rows_amount = std::max(this->rows_amount, new_row + 1);
+                    }
                     this->remapping_computed = true;
                 }
 
-- 
2.43.0


From acf7295db59f1becd06b21a49015b833632415be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:29:22 +0000
Subject: [PATCH 28/31] fix: convert the inputs of a stretched component before
 generating its circuit

---
 include/nil/blueprint/component_stretcher.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index bcab065..55934b8 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -474,8 +474,10 @@ namespace nil {
                 circuit<crypto3::zk::snark::plonk_constraint_system<
                     BlueprintFieldType>> tmp_circuit;
 
+                auto converted_input = input_type_converter<ComponentType>::convert(instance_input, assignment,
+                                                                                    tmp_assignment);
                 auto result = generate_circuit(
-                    component.component, tmp_circuit, tmp_assignment, instance_input, 0);
+                    component.component, tmp_circuit, tmp_assignment, converted_input, 0);
                 component.move_circuit(tmp_circuit, tmp_assignment, bp, assignment,
                                        instance_input, start_row_index);
                 return result_type_converter<ComponentType>::convert(component, result, instance_input,
-- 
2.43.0


From daac5599cb4e43096099ba18ce0eb8bce1c847e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:40:41 +0000
Subject: [PATCH 29/31] fix: keep the push size of bytecode rows within a byte

---
 include/nil/blueprint/zkevm/bytecode.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index 2d09e68..22a3a23 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -503,7 +503,10 @@ namespace nil {
 //                 {tag * (1 - tag_next) * value_rlc, tag * (1 - tag_next) * value_rlc * index + 1, tag * (1 - tag_next ) * hash_hi, tag * (1 - tag_next) * hash_lo}
 //              }
 
+                // Without it the size can pass zero downwards, and instructions be declared data up to the end of the contract
+                lookup_constraint_type push_size_range_check = {lookup_tables_indices.at("byte_range_table/full"), {tag * push_size}};
                 lookup_constraints.push_back(bytecode_range_check);
+                lookup_constraints.push_back(push_size_range_check);
                 lookup_constraints.push_back(opcode_constraint);
 
                 std::size_t selector_id = bp.get_dynamic_table_definition("zkevm_bytecode")->lookup_table.tag_index;
-- 
2.43.0


From a026432978f8280e12a11680c41864ff9b54929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:03 +0000
Subject: [PATCH 30/31] fix: range check the result of Ed25519 addition and
 subtraction in the component's columns

---
 .../components/algebra/fields/plonk/non_native/addition.hpp    | 3 ++-
 .../components/algebra/fields/plonk/non_native/subtraction.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
index 5ceeaf8..f82057d 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
@@ -333,7 +333,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_addition<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index 78fa308..af1c88a 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -337,7 +337,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_subtraction<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
-- 
2.43.0


From 5fbeb317c2a8546ec36dd0d71e0a778c5bc5433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:51:51 +0000
Subject: [PATCH 31/31] fix: keep the carry of an Ed25519 subtraction positive
 when the low limbs borrow

---
 .../algebra/fields/plonk/non_native/subtraction.hpp        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index af1c88a..33a5c2f 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -210,7 +210,7 @@ namespace nil {
                         r[i] = (integral_eddsa_r >> (66 * i)) & (mask);
                     }
                     typename ed25519_field_type::extended_integral_type eddsa_p0 = 
-                        eddsa_p & extended_mask;
+                        (eddsa_p & extended_mask) + (extended_base << 66);
                     typename BlueprintFieldType::value_type t = a[0] + eddsa_p0 - b[0] + p[0] * q[0];
 
                     typename BlueprintFieldType::value_type u0 = t - r[0];
@@ -301,7 +301,7 @@ namespace nil {
                     r[i] = (integral_eddsa_r >> (66 * i)) & (mask);
                 }
                 typename ed25519_field_type::extended_integral_type eddsa_p0 = 
-                    eddsa_p & extended_mask;
+                    (eddsa_p & extended_mask) + (extended_base << 66);
                 typename BlueprintFieldType::value_type t = a[0] + eddsa_p0 - b[0] + p[0] * q[0];
 
                 typename BlueprintFieldType::value_type u0 = t - r[0];
@@ -407,7 +407,8 @@ namespace nil {
                 // We need to convert mask to ed25519_field_type::extended_integral_type,
                 // because you cannot use operator& for numbers of different sizes.
                 typename ed25519_field_type::extended_integral_type mask = (base << 66) - 1;
-                typename ed25519_field_type::extended_integral_type eddsa_p0 = eddsa_p & mask;
+                typename ed25519_field_type::extended_integral_type eddsa_p0 =
+                    (eddsa_p & mask) + (extended_base << 66);
                 p[0] = minus_eddsa_p & mask;
 
                 auto t = var(component.W(0), 0) + p[0] * var(component.W(2), 0);
-- 
2.43.0

