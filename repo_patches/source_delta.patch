From a6cc873e73b47ab46793cdec2f68944d0f5be97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:26 +0000
Subject: [PATCH 01/69] fix: accept lookup table values of any field size in
 the table parser

The parser limited hexadecimal numbers to one digit per 16 bits of the field modulus.
A hexadecimal digit holds 4 bits, so longer values were cut and their tail was read as the next number.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 8e80698..263dc6d 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -55,7 +55,7 @@ namespace nil {
                         using boost::phoenix::construct;
                         using boost::phoenix::val;
                         auto number = uint_parser<integral_type, 16, 1,
-                                                  (BlueprintFieldType::modulus_bits + 16 - 1) / 16>();
+                                                  (BlueprintFieldType::modulus_bits + 4 - 1) / 4>();
                         start = repeat(size)[number];
 
                         boost::spirit::qi::on_error<boost::spirit::qi::fail>(
-- 
2.43.0


From 5eea3c680f48a14767da67df88b34cddf783e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:05 +0000
Subject: [PATCH 02/69] fix: refuse damaged lookup tables instead of loading
 them partly

A table stream that ended early repeated its last row and was reported as loaded.
Trailing garbage, wrong row counts and numbers running into each other went unnoticed as well.
A malformed header threw an exception, so the remaining candidate files were not tried.
---
 .../blueprint/detail/lookup_table_loaders.hpp | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 263dc6d..445d5de 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -52,11 +52,14 @@ namespace nil {
                         using boost::spirit::qi::_1;
                         using boost::spirit::qi::_2;
                         using boost::spirit::qi::repeat;
+                        using boost::spirit::qi::lexeme;
+                        using boost::spirit::qi::ascii::xdigit;
                         using boost::phoenix::construct;
                         using boost::phoenix::val;
                         auto number = uint_parser<integral_type, 16, 1,
                                                   (BlueprintFieldType::modulus_bits + 4 - 1) / 4>();
-                        start = repeat(size)[number];
+                        // A number has to end where its digits end, otherwise its tail would be taken for the next one
+                        start = repeat(size)[lexeme[number >> !xdigit]];
 
                         boost::spirit::qi::on_error<boost::spirit::qi::fail>(
                             start,
@@ -75,28 +78,37 @@ namespace nil {
                         std::vector<std::vector<typename BlueprintFieldType::value_type>> &result) {
                     using value_type = typename BlueprintFieldType::value_type;
                     std::string line;
+                    boost::spirit::qi::ascii::space_type space;
                     // Get the table size
-                    std::getline(ist, line);
-                    std::size_t table_size = std::stoull(line);
-                    result.resize(line_size);
-                    for (auto &column : result) {
-                        column.resize(table_size);
+                    if (!std::getline(ist, line)) {
+                        return false;
+                    }
+                    std::size_t table_size = 0;
+                    auto header_begin = line.begin();
+                    if (!boost::spirit::qi::phrase_parse(header_begin, line.end(),
+                            boost::spirit::qi::uint_parser<std::size_t>(), space, table_size) ||
+                        header_begin != line.end()) {
+                        return false;
                     }
+                    result.assign(line_size, {});
                     for (std::size_t i = 0; i < table_size; i++) {
-                        std::getline(ist, line);
+                        if (!std::getline(ist, line)) {
+                            return false;
+                        }
                         std::vector<value_type> row;
                         value_vector_parser<decltype(line.begin()), BlueprintFieldType> parser(line_size);
-                        boost::spirit::qi::ascii::space_type space;
+                        auto row_begin = line.begin();
                         bool parsing_result =
-                            boost::spirit::qi::phrase_parse(line.begin(), line.end(), parser, space, row);
-                        if (!parsing_result) {
+                            boost::spirit::qi::phrase_parse(row_begin, line.end(), parser, space, row);
+                        if (!parsing_result || row_begin != line.end()) {
                             return false;
                         }
                         for (std::size_t j = 0; j < line_size; j++) {
-                            result[j][i] = row[j];
+                            result[j].push_back(row[j]);
                         }
                     }
-                    return true;
+                    // More data than announced means that the header is wrong
+                    return (ist >> std::ws).eof();
                 }
 
                 // Loads the table from file, trying multiple different filen paths if one fails
-- 
2.43.0


From 8bb4794b31d654a846fe959ce4e0fc89712f91c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:27 +0000
Subject: [PATCH 03/69] fix: join started threads when starting another table
 worker fails

If a worker thread could not be started, the array of running threads was destroyed and the program terminated.
The started workers are now joined and the caller gets the exception.
---
 .../sha2/plonk/detail/sha_table_generators.hpp   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp
index 8c398a0..32cfe8a 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp
@@ -59,6 +59,20 @@ namespace nil {
                     }
                 };
 
+                // Joins the threads which were already started when leaving early, i.e. if starting another one fails
+                template <std::size_t ThreadNum>
+                struct thread_join_guard {
+                    std::array<std::thread, ThreadNum> &threads;
+
+                    ~thread_join_guard() {
+                        for (auto &thread : threads) {
+                            if (thread.joinable()) {
+                                thread.join();
+                            }
+                        }
+                    }
+                };
+
                 template <typename BlueprintFieldType>
                 void print_sha_table_to_stream(
                         const std::unordered_set<std::pair<
@@ -204,6 +218,7 @@ namespace nil {
                     auto start = std::chrono::high_resolution_clock::now();
                     std::mutex set_guard;
                     std::array<std::thread, ThreadNum> threads;
+                    thread_join_guard<ThreadNum> join_guard = {threads};
                     // Dispatching does not work otherwise
                     static_assert(ThreadNum == 1 || ThreadNum % 2 == 0 && ThreadNum > 1);
                     // Filling the cache
@@ -313,6 +328,7 @@ namespace nil {
                     auto start = std::chrono::high_resolution_clock::now();
                     std::mutex set_guard;
                     std::array<std::thread, ThreadNum> threads;
+                    thread_join_guard<ThreadNum> join_guard = {threads};
 
                     // Dispatching does not work otherwise
                     static_assert(ThreadNum == 1 || ThreadNum % 2 == 0 && ThreadNum > 1);
-- 
2.43.0


From 7113649218f357f396b847b836cf16bf0da7aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:31 +0000
Subject: [PATCH 04/69] fix: cover the whole input range for every number of
 table workers

The range was divided first and multiplied afterwards.
For worker counts which are not powers of two the last values of the range were never processed.
---
 .../hashes/sha2/plonk/detail/sha_table_generators.hpp     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp
index 32cfe8a..bb99f4f 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp
@@ -233,8 +233,8 @@ namespace nil {
                         threads[i] = std::thread(
                             base4_reverse_table_worker<BlueprintFieldType>,
                             std::ref(output_set),
-                            (integral_type(one << table_size) / ThreadNum) * i,
-                            (integral_type(one << table_size) / ThreadNum) * (i + 1),
+                            (integral_type(one << table_size) * i) / ThreadNum,
+                            (integral_type(one << table_size) * (i + 1)) / ThreadNum,
                             table_size,
                             std::ref(set_guard));
                     }
@@ -344,8 +344,8 @@ namespace nil {
                         threads[i] = std::thread(
                             base7_reverse_table_worker<BlueprintFieldType>,
                             std::ref(output_set),
-                            (integral_type(one << table_size) / ThreadNum) * i,
-                            (integral_type(one << table_size) / ThreadNum) * (i + 1),
+                            (integral_type(one << table_size) * i) / ThreadNum,
+                            (integral_type(one << table_size) * (i + 1)) / ThreadNum,
                             table_size,
                             std::ref(set_guard));
                     }
-- 
2.43.0


From b39fb4509e4b2686d8b36e137234fa235fe22cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:58 +0000
Subject: [PATCH 05/69] fix: make the digit splitting helpers usable from
 several threads

The helpers share a cache of powers which is modified on first use without synchronisation.
Each thread now has its own cache.
---
 .../components/hashes/sha2/plonk/detail/split_functions.hpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp
index 3d9f83c..5e5d9b3 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp
@@ -70,7 +70,8 @@ namespace nil {
 
                     using integral_type = typename BlueprintFieldType::integral_type;
                     using value_type = typename BlueprintFieldType::value_type;
-                    static std::map<std::pair<std::size_t, std::size_t>, integral_type> cache;
+                    // The cache is modified on first use, so every thread needs its own
+                    static thread_local std::map<std::pair<std::size_t, std::size_t>, integral_type> cache;
                     const auto pair = std::make_pair(base, k);
                     if (cache.find(pair) == cache.end()) {  [[unlikely]]
                         cache[pair] = integral_type(value_type(base).pow(k).data);
-- 
2.43.0


From 73e0a505c18dcf1e2d648c5f6a21e43d0fd6fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:09 +0000
Subject: [PATCH 06/69] fix: let circuit views forward every building operation
 to the shared circuit

Selectors for dynamic tables, gates attached to a selector, dynamic table
reservations and definitions went to the view's own base object, so provers got
colliding selectors and their tables were lost.
---
 .../nil/blueprint/blueprint/plonk/circuit.hpp |  2 +-
 .../blueprint/plonk/circuit_proxy.hpp         | 39 +++++++++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit.hpp b/include/nil/blueprint/blueprint/plonk/circuit.hpp
index 999bf92..21cbbb9 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit.hpp
@@ -201,7 +201,7 @@ namespace nil {
                 _lookup_library.reserve_dynamic_table(name);
             }
 
-            std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
+            virtual std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
                 return _lookup_library.get_dynamic_table_definition(name);
             }
 
diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 5373578..8f7a01c 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -46,6 +46,7 @@ namespace nil {
             using constraint_type = crypto3::zk::snark::plonk_constraint<BlueprintFieldType>;
             using lookup_constraint_type = crypto3::zk::snark::plonk_lookup_constraint<BlueprintFieldType>;
             using lookup_table_definition = typename nil::crypto3::zk::snark::lookup_table_definition<BlueprintFieldType>;
+            using dynamic_table_definition = typename nil::crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>;
 
             std::shared_ptr<circuit<ArithmetizationType>> circuit_ptr;
             std::uint32_t id;
@@ -169,6 +170,22 @@ namespace nil {
                 return selector_index;
             }
 
+            std::size_t add_gate(std::size_t selector_id, const std::vector<constraint_type> &args) override {
+                const auto selector_index = circuit_ptr->add_gate(selector_id, args);
+                used_gates.insert(circuit_ptr->num_gates() - 1);
+                return selector_index;
+            }
+
+            std::size_t add_lookup_gate(std::size_t selector_id, const std::vector<lookup_constraint_type> &args) override {
+                const auto selector_index = circuit_ptr->add_lookup_gate(selector_id, args);
+                used_lookup_gates.insert(circuit_ptr->num_lookup_gates() - 1);
+                return selector_index;
+            }
+
+            std::size_t get_dynamic_lookup_table_selector() override {
+                return circuit_ptr->get_dynamic_lookup_table_selector();
+            }
+
             const typename ArithmetizationType::lookup_table_type &lookup_table(std::size_t table_id) const override {
                 return circuit_ptr->lookup_table(table_id);
             }
@@ -181,6 +198,24 @@ namespace nil {
                 circuit_ptr->register_lookup_table(table);
             }
 
+            void register_dynamic_table(std::string name) override {
+                circuit_ptr->register_dynamic_table(name);
+            }
+
+            void reserve_dynamic_table(std::string name) override {
+                circuit_ptr->reserve_dynamic_table(name);
+                const auto idx = circuit_ptr->get_reserved_indices().at(name) - 1;
+                used_lookup_tables.insert(idx);
+            }
+
+            std::shared_ptr<dynamic_table_definition> get_dynamic_table_definition(std::string name) override {
+                return circuit_ptr->get_dynamic_table_definition(name);
+            }
+
+            void define_dynamic_table(std::string name, const crypto3::zk::snark::plonk_lookup_table<BlueprintFieldType> &table) override {
+                circuit_ptr->define_dynamic_table(name, table);
+            }
+
             void reserve_table(std::string name) override {
                 circuit_ptr->reserve_table(name);
                 const auto idx = circuit_ptr->get_reserved_indices().at(name) - 1;
@@ -201,6 +236,10 @@ namespace nil {
                 return circuit_ptr->get_reserved_tables();
             }
 
+            const std::map<std::string, std::shared_ptr<dynamic_table_definition>> &get_reserved_dynamic_tables() const override {
+                return circuit_ptr->get_reserved_dynamic_tables();
+            }
+
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
                 circuit_ptr->add_copy_constraint(copy_constraint);
                 if (circuit_ptr->copy_constraints().size() > 0) {
-- 
2.43.0


From dc334934ace8de2ea9dea40a52ba72afce00297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:42 +0000
Subject: [PATCH 07/69] fix: do not mark another prover's copy constraint as
 used when one is dropped

---
 include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 8f7a01c..1a8183a 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -241,8 +241,10 @@ namespace nil {
             }
 
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
+                const std::size_t previous_size = circuit_ptr->copy_constraints().size();
                 circuit_ptr->add_copy_constraint(copy_constraint);
-                if (circuit_ptr->copy_constraints().size() > 0) {
+                // the circuit drops trivial constraints and ones on private storage
+                if (circuit_ptr->copy_constraints().size() > previous_size) {
                     used_copy_constraints.insert(circuit_ptr->copy_constraints().size() - 1);
                 }
             }
-- 
2.43.0


From 47b2055b754a11ea67d69cd245f3d4a9e1b4a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:47 +0000
Subject: [PATCH 08/69] fix: keep batched variables of table views in the
 shared table

---
 .../blueprint/blueprint/plonk/assignment.hpp  | 10 +++++--
 .../blueprint/plonk/assignment_proxy.hpp      | 29 +++++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index df9e40e..b5472cf 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -231,7 +231,7 @@ namespace nil {
                     nil::blueprint::circuit<ArithmetizationType> &bp,
                     std::size_t const_column,
                     std::size_t start_row_index = 1) {
-                if (assignment_batch_constant_storage.size() == 0) {
+                if (this->batch_constant_storage_size() == 0) {
                     return start_row_index;
                 }
                 BOOST_ASSERT(start_row_index >= 1);
@@ -300,7 +300,7 @@ namespace nil {
                 }
                 std::size_t row = start_row_index;
                 std::unordered_map<var, var> batch_variable_map;
-                for (std::size_t constant_index = 0; constant_index < assignment_batch_constant_storage.size();
+                for (std::size_t constant_index = 0; constant_index < this->batch_constant_storage_size();
                      constant_index++) {
                     while (row < (used_constants.size() + start_row_index) && used_constants[row - start_row_index]) {
                         row++;
@@ -308,7 +308,7 @@ namespace nil {
                     const var curr_batch_var =
                         var(batch_constant_storage_index, constant_index, false, var::column_type::constant);
                     const var curr_bp_var = var(const_column, row, false, var::column_type::constant);
-                    this->constant(const_column, row) = assignment_batch_constant_storage[constant_index];
+                    this->constant(const_column, row) = this->batch_constant_storage(constant_index);
                     batch_variable_map[curr_batch_var] = curr_bp_var;
                     row++;
                 }
@@ -569,6 +569,10 @@ namespace nil {
                            var::column_type::public_input);
             }
 
+            virtual std::size_t batch_constant_storage_size() const {
+                return assignment_batch_constant_storage.size();
+            }
+
             virtual value_type batch_constant_storage(std::uint32_t storage_index) const {
                 BLUEPRINT_ASSERT(storage_index < assignment_batch_constant_storage.size());
                 return assignment_batch_constant_storage[storage_index];
diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 0f26a65..20b945a 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -43,6 +43,7 @@ namespace nil {
 
             typedef crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType> ArithmetizationType;
 
+            using var = crypto3::zk::snark::plonk_variable<typename BlueprintFieldType::value_type>;
             using value_type = typename BlueprintFieldType::value_type;
             using column_type = typename crypto3::zk::snark::plonk_column<BlueprintFieldType>;
 
@@ -308,6 +309,34 @@ namespace nil {
                 return assignment_ptr->private_storage_size();
             }
 
+            std::size_t batch_private_storage_size() const override {
+                return assignment_ptr->batch_private_storage_size();
+            }
+
+            value_type batch_private_storage(std::uint32_t storage_index) const override {
+                return std::const_pointer_cast<const assignment<ArithmetizationType>>(assignment_ptr)->batch_private_storage(storage_index);
+            }
+
+            value_type &batch_private_storage(std::uint32_t storage_index) override {
+                return assignment_ptr->batch_private_storage(storage_index);
+            }
+
+            var add_batch_variable(const value_type &value) override {
+                return assignment_ptr->add_batch_variable(value);
+            }
+
+            std::size_t batch_constant_storage_size() const override {
+                return assignment_ptr->batch_constant_storage_size();
+            }
+
+            value_type batch_constant_storage(std::uint32_t storage_index) const override {
+                return assignment_ptr->batch_constant_storage(storage_index);
+            }
+
+            var add_batch_constant_variable(const value_type &value) override {
+                return assignment_ptr->add_batch_constant_variable(value);
+            }
+
             void export_table(std::ostream& os, bool wide_export = false) const override {
                 std::ios_base::fmtflags os_flags(os.flags());
 
-- 
2.43.0


From 7bcf9ea251facbe98e9828d79803505619c7902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:14 +0000
Subject: [PATCH 09/69] fix: report sizes and partial exports of the shared
 table through its views

---
 .../blueprint/blueprint/plonk/assignment.hpp  |  8 +++----
 .../blueprint/plonk/assignment_proxy.hpp      | 22 +++++++++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index b5472cf..3677e46 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -594,7 +594,7 @@ namespace nil {
             }
 
             /// @brief Max size of witness columns.
-            std::uint32_t max_witnesses_size() const {
+            virtual std::uint32_t max_witnesses_size() const {
                 std::uint32_t size = 0;
                 std::size_t ammount = this->_private_table.witnesses_amount();
                 for (std::uint32_t i = 0; i < ammount; i++) {
@@ -604,7 +604,7 @@ namespace nil {
             }
 
             /// @brief Max size of public input columns.
-            std::uint32_t max_public_inputs_size() const {
+            virtual std::uint32_t max_public_inputs_size() const {
                 std::uint32_t size = 0;
                 std::size_t ammount = this->_public_table.public_inputs_amount();
                 for (std::uint32_t i = 0; i < ammount; i++) {
@@ -614,7 +614,7 @@ namespace nil {
             }
 
             /// @brief Max size of constant columns.
-            std::uint32_t max_constants_size() const {
+            virtual std::uint32_t max_constants_size() const {
                 std::uint32_t size = 0;
                 std::size_t ammount = this->_public_table.constants_amount();
                 for (std::uint32_t i = 0; i < ammount; i++) {
@@ -624,7 +624,7 @@ namespace nil {
             }
 
             /// @brief Max size of selector columns.
-            std::uint32_t max_selectors_size() const {
+            virtual std::uint32_t max_selectors_size() const {
                 std::uint32_t size = 0;
                 std::size_t ammount = this->_public_table.selectors_amount();
                 for (std::uint32_t i = 0; i < ammount; i++) {
diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 20b945a..2fbb0ef 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -46,6 +46,7 @@ namespace nil {
             using var = crypto3::zk::snark::plonk_variable<typename BlueprintFieldType::value_type>;
             using value_type = typename BlueprintFieldType::value_type;
             using column_type = typename crypto3::zk::snark::plonk_column<BlueprintFieldType>;
+            using ranges = std::vector<std::pair<std::size_t, std::size_t>>;
 
         private:
             std::shared_ptr<assignment<ArithmetizationType>> assignment_ptr;
@@ -337,6 +338,27 @@ namespace nil {
                 return assignment_ptr->add_batch_constant_variable(value);
             }
 
+            std::uint32_t max_witnesses_size() const override {
+                return assignment_ptr->max_witnesses_size();
+            }
+
+            std::uint32_t max_public_inputs_size() const override {
+                return assignment_ptr->max_public_inputs_size();
+            }
+
+            std::uint32_t max_constants_size() const override {
+                return assignment_ptr->max_constants_size();
+            }
+
+            std::uint32_t max_selectors_size() const override {
+                return assignment_ptr->max_selectors_size();
+            }
+
+            void export_table(std::ostream &os, ranges witnesses, ranges public_inputs, ranges constants,
+                              ranges selectors, ranges rows, bool wide_export = false) const override {
+                assignment_ptr->export_table(os, witnesses, public_inputs, constants, selectors, rows, wide_export);
+            }
+
             void export_table(std::ostream& os, bool wide_export = false) const override {
                 std::ios_base::fmtflags os_flags(os.flags());
 
-- 
2.43.0


From 6b2c2fa94debc2593dd55c17b9b1925d59780ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:37 +0000
Subject: [PATCH 10/69] fix: allocate the same rows for a range of selectors
 enabled through a view

---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 2fbb0ef..166bbdc 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -145,6 +145,7 @@ namespace nil {
                 for (auto i = begin_row_index; i <= end_row_index; i = i + index_step) {
                     enable_selector(selector_index, i);
                 }
+                assignment_ptr->enable_selector(selector_index, begin_row_index, end_row_index, index_step);
             }
 
             void fill_selector(std::uint32_t index, const column_type& column) override {
-- 
2.43.0


From be124dcf5f677b569042a261c32eb532628c4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:39 +0000
Subject: [PATCH 11/69] fix: show every selector column and shared row in the
 export of a table view

---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 166bbdc..f4ff451 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -392,6 +392,7 @@ namespace nil {
                 }
 
                 max_size = std::max({max_witnesses_size,
+                                     max_shared_size,
                                      max_public_inputs_size,
                                      max_constants_size,
                                      max_selectors_size});
@@ -460,7 +461,7 @@ namespace nil {
                     }
                     os << "| ";
                     // Selectors only need a single bit, so we do not renew the size here
-                    for (std::uint32_t j = 0; j < selectors_size - 1; j++) {
+                    for (std::uint32_t j = 0; j < selectors_size; j++) {
                         os << (i < assignment_ptr->selector_column_size(j) ?
                                assignment_ptr->selector(j, i) : 0).data << " ";
                     }
-- 
2.43.0


From 40eabdd9c2c1aa37529203e991ba9356600f8d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:02 +0000
Subject: [PATCH 12/69] fix: write the whole export of a circuit view to the
 given stream

---
 include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 1a8183a..5eb2026 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -281,7 +281,7 @@ namespace nil {
                        << copy_constraints[i].second << "\n";
                 }
 
-                std::cout << "\nlookup gates:\n";
+                os << "\nlookup gates:\n";
                 for (const auto& i : used_lookup_gates) {
                     os << i << ": selector: " << lookup_gates[i].tag_index
                        << " lookup constraints size: " << lookup_gates[i].constraints.size() << "\n";
@@ -291,12 +291,12 @@ namespace nil {
                         for (std::size_t k = 0; k < lookup_gates[i].constraints[j].lookup_input.size(); k++) {
                             os << lookup_gates[i].constraints[j].lookup_input[k] << "\n";
                         }
-                        std::cout << "\n";
+                        os << "\n";
                     }
-                    std::cout << "\n";
+                    os << "\n";
                 }
 
-                std::cout << "\nlookup tables:\n";
+                os << "\nlookup tables:\n";
                 for (const auto& i : used_lookup_tables) {
                     bool found = false;
                     for (const auto& it : lookup_table_indexes) {
-- 
2.43.0


From fc62cdc00ea22447da6ef8edfcc73963e5359a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:25 +0000
Subject: [PATCH 13/69] fix: do not allocate rows in the shared table when a
 view is exported

---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index f4ff451..32c360b 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -361,6 +361,8 @@ namespace nil {
             }
 
             void export_table(std::ostream& os, bool wide_export = false) const override {
+                // the non-const accessors would allocate rows
+                const std::shared_ptr<const assignment<ArithmetizationType>> assignment_ptr = this->assignment_ptr;
                 std::ios_base::fmtflags os_flags(os.flags());
 
                 std::uint32_t witnesses_size = witnesses_amount();
-- 
2.43.0


From 001693f5e7f7ae4d25877ff34172a82db604d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:20 +0000
Subject: [PATCH 14/69] fix: forget the selector of a gate that could not be
 stored

---
 include/nil/blueprint/blueprint/plonk/circuit.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit.hpp b/include/nil/blueprint/blueprint/plonk/circuit.hpp
index 21cbbb9..5ee9de0 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit.hpp
@@ -118,7 +118,12 @@ namespace nil {
                 } else { \
                     const std::size_t selector_index = next_selector_index; \
                     mapping[gate_id] = selector_index; \
-                    this->gate_container.emplace_back(selector_index, args); \
+                    try { \
+                        this->gate_container.emplace_back(selector_index, args); \
+                    } catch (...) { \
+                        mapping.erase(gate_id); \
+                        throw; \
+                    } \
                     next_selector_index++; \
                     return selector_index; \
                 }
-- 
2.43.0


From d3006569f0a7be5f9cecbac9e4183689393c0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:11 +0000
Subject: [PATCH 15/69] fix: do not treat lookup table reservation as closed
 when closing it failed

---
 include/nil/blueprint/lookup_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/lookup_library.hpp b/include/nil/blueprint/lookup_library.hpp
index 755b340..886f74f 100644
--- a/include/nil/blueprint/lookup_library.hpp
+++ b/include/nil/blueprint/lookup_library.hpp
@@ -397,7 +397,6 @@ namespace nil {
             void reservation_done() const {
                 if(reserved_all) return;
 
-                reserved_all = true;
                 for (auto &name : reserved_tables){
                     if( dynamic_tables.find(name) != dynamic_tables.end() ){
                         reserved_dynamic_tables_map[name] = dynamic_tables.at(name);
@@ -420,6 +419,7 @@ namespace nil {
                             table->subtables[subtable_name];
                     }
                 }
+                reserved_all = true;
             }
 
             const bimap_type &get_reserved_indices() const {
-- 
2.43.0


From 57f6cd08702a37ebdcede4c42f391f656412d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:08 +0000
Subject: [PATCH 16/69] fix: do not keep a lookup table whose generation was
 interrupted

---
 include/nil/blueprint/lookup_library.hpp | 35 ++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/include/nil/blueprint/lookup_library.hpp b/include/nil/blueprint/lookup_library.hpp
index 886f74f..f1e6487 100644
--- a/include/nil/blueprint/lookup_library.hpp
+++ b/include/nil/blueprint/lookup_library.hpp
@@ -69,6 +69,19 @@ namespace nil {
             using dynamic_table_definition = typename nil::crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>;
             using filled_lookup_table_definition = typename nil::crypto3::zk::snark::filled_lookup_table_definition<BlueprintFieldType>;
 
+            // a table whose generation was interrupted must not look like a generated one
+            template<typename TableType>
+            class generation_guard {
+                TableType &table;
+                bool finished = false;
+            public:
+                generation_guard(TableType &table_): table(table_) {}
+                ~generation_guard() {
+                    if (!finished) table.clear();
+                }
+                void finish() { finished = true; }
+            };
+
             class byte_range_table_type: public lookup_table_definition{
             public:
                 using lookup_table_definition = typename nil::crypto3::zk::snark::lookup_table_definition<BlueprintFieldType>;
@@ -77,10 +90,12 @@ namespace nil {
                     this->subtables["full"] = {{0}, 0, 255};
                 }
                 virtual void generate(){
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     this->_table.push_back({});
                     for( std::size_t i = 0; i < 256; i++){
                         this->_table[0].push_back({i});
                     }
+                    guard.finish();
                 }
                 virtual std::size_t get_columns_number(){ return 1; }
                 virtual std::size_t get_rows_number(){ return 256; }
@@ -95,6 +110,7 @@ namespace nil {
                     this->subtables["opcodes_only"] = {{0}, 0, opcodes_num};
                 }
                 virtual void generate(){
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     // opcodes
                     this->_table.push_back({
                         0x0,  0x1,  0x2,  0x3,  0x4,  0x5,  0x6,  0x7,  0x8,   0x9,  0xa,  0xb,                              //12
@@ -133,6 +149,7 @@ namespace nil {
                     this->_table[0].push_back(0);
                     this->_table[1].push_back(0);
                     this->_table[2].push_back(0);
+                    guard.finish();
                 }
                 virtual std::size_t get_columns_number(){ return 1; }
                 virtual std::size_t get_rows_number(){ return 256; }
@@ -144,11 +161,13 @@ namespace nil {
                     this->subtables["full"] = {{0,1,2}, 0, 3};
                 }
                 virtual void generate(){
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     this->_table = {
                         {0u, 0u, 1u, 1u},
                         {0u, 1u, 0u, 1u},
                         {0u, 1u, 1u, 0u}
                     };
+                    guard.finish();
                 }
                 virtual std::size_t get_columns_number(){ return 3; }
                 virtual std::size_t get_rows_number(){ return 4; }
@@ -160,11 +179,13 @@ namespace nil {
                     this->subtables["full"] = {{0,1,2}, 0, 3};
                 }
                 virtual void generate(){
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     this->_table = {
                         {0u, 0u, 1u, 1u},
                         {0u, 1u, 0u, 1u},
                         {0u, 0u, 0u, 1u}
                     };
+                    guard.finish();
                 }
                 virtual std::size_t get_columns_number(){ return 3; }
                 virtual std::size_t get_rows_number(){ return 4; }
@@ -177,6 +198,7 @@ namespace nil {
                     this->subtables["first_column"] = {{0}, 0, 16383};
                 };
                 virtual void generate(){
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     this->_table.resize(2);
                     std::vector<std::size_t> value_sizes = {14};
 
@@ -194,6 +216,7 @@ namespace nil {
                         this->_table[0].push_back(value_chunks[0][0]);
                         this->_table[1].push_back(value_chunks[1][0]);
                     }
+                    guard.finish();
                 }
 
                 virtual std::size_t get_columns_number(){return 2;}
@@ -207,6 +230,7 @@ namespace nil {
                 };
 
                 virtual void generate() {
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     bool status = components::detail::load_lookup_table_from_bin<BlueprintFieldType>(
                         "8_split_4",
                         this->_table);
@@ -214,6 +238,7 @@ namespace nil {
                         std::cerr << "Failed to load table 8_split_4 from binary!" << std::endl;
                         BLUEPRINT_RELEASE_ASSERT(0);
                     }
+                    guard.finish();
                 }
 
                 virtual std::size_t get_columns_number(){return 2;}
@@ -228,6 +253,7 @@ namespace nil {
                     this->subtables["second_column"] = {{1}, 0, 16383};
                 };
                 virtual void generate(){
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     this->_table.resize(2);
                     std::vector<std::size_t> value_sizes = {14};
                     for (typename BlueprintFieldType::integral_type i = 0u;
@@ -242,6 +268,7 @@ namespace nil {
                         this->_table[0].push_back(value_chunks[0][0]);
                         this->_table[1].push_back(value_chunks[1][0]);
                     }
+                    guard.finish();
                 }
 
                 virtual std::size_t get_columns_number(){return 2;}
@@ -254,6 +281,7 @@ namespace nil {
                     this->subtables["full"] = {{0,1}, 0, 43903};
                 };
                 virtual void generate() {
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     bool status = components::detail::load_lookup_table_from_bin<BlueprintFieldType>(
                         "8_split_7",
                         this->_table);
@@ -261,6 +289,7 @@ namespace nil {
                         std::cerr << "Failed to load table 8_split_7 from binary!" << std::endl;
                         BLUEPRINT_RELEASE_ASSERT(0);
                     }
+                    guard.finish();
                 }
 
                 virtual std::size_t get_columns_number(){return 2;}
@@ -274,6 +303,7 @@ namespace nil {
                     this->subtables["first_column"] = {{0}, 0, 65535};
                 };
                 virtual void generate(){
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     this->_table.resize(2);
                     std::vector<std::size_t> value_sizes = {8};
                     for (typename BlueprintFieldType::integral_type i = 0u;
@@ -285,6 +315,7 @@ namespace nil {
                         this->_table[0].push_back(value[0][0]);
                         this->_table[1].push_back(value[1][0]);
                     }
+                    guard.finish();
                 }
 
                 virtual std::size_t get_columns_number(){return 2;}
@@ -298,6 +329,7 @@ namespace nil {
                     this->subtables["first_column"] = {{0}, 0, 5764800};
                 };
                 virtual void generate(){
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     this->_table.resize(2);
                     std::vector<std::size_t> value_sizes = {8};
                     for (typename BlueprintFieldType::integral_type i = 0u;
@@ -309,6 +341,7 @@ namespace nil {
                         this->_table[0].push_back(value[0][0]);
                         this->_table[1].push_back(value[1][0]);
                     }
+                    guard.finish();
                 }
 
                 virtual std::size_t get_columns_number(){return 2;}
@@ -321,10 +354,12 @@ namespace nil {
                     this->subtables["full"] = {{0}, 0, 65535};
                 };
                 virtual void generate(){
+                    generation_guard<decltype(this->_table)> guard(this->_table);
                     this->_table.resize(1);
                     for (std::size_t i = 0; i < 65536; i++) {
                         this->_table[0].push_back(i);
                     }
+                    guard.finish();
                 }
 
                 virtual std::size_t get_columns_number(){return 1;}
-- 
2.43.0


From 3df2a5c9c4a2ad446e253d0ce20cea8c71a513d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:08 +0000
Subject: [PATCH 17/69] fix: do not add an item to the shared circuit twice
 when a view runs out of memory

---
 .../blueprint/plonk/circuit_proxy.hpp         | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 5eb2026..2e88654 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -171,15 +171,23 @@ namespace nil {
             }
 
             std::size_t add_gate(std::size_t selector_id, const std::vector<constraint_type> &args) override {
-                const auto selector_index = circuit_ptr->add_gate(selector_id, args);
-                used_gates.insert(circuit_ptr->num_gates() - 1);
-                return selector_index;
+                const auto used = used_gates.insert(circuit_ptr->num_gates()).first;
+                try {
+                    return circuit_ptr->add_gate(selector_id, args);
+                } catch (...) {
+                    used_gates.erase(used);
+                    throw;
+                }
             }
 
             std::size_t add_lookup_gate(std::size_t selector_id, const std::vector<lookup_constraint_type> &args) override {
-                const auto selector_index = circuit_ptr->add_lookup_gate(selector_id, args);
-                used_lookup_gates.insert(circuit_ptr->num_lookup_gates() - 1);
-                return selector_index;
+                const auto used = used_lookup_gates.insert(circuit_ptr->num_lookup_gates()).first;
+                try {
+                    return circuit_ptr->add_lookup_gate(selector_id, args);
+                } catch (...) {
+                    used_lookup_gates.erase(used);
+                    throw;
+                }
             }
 
             std::size_t get_dynamic_lookup_table_selector() override {
@@ -242,10 +250,16 @@ namespace nil {
 
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
                 const std::size_t previous_size = circuit_ptr->copy_constraints().size();
-                circuit_ptr->add_copy_constraint(copy_constraint);
+                const auto used = used_copy_constraints.insert(previous_size).first;
+                try {
+                    circuit_ptr->add_copy_constraint(copy_constraint);
+                } catch (...) {
+                    used_copy_constraints.erase(used);
+                    throw;
+                }
                 // the circuit drops trivial constraints and ones on private storage
-                if (circuit_ptr->copy_constraints().size() > previous_size) {
-                    used_copy_constraints.insert(circuit_ptr->copy_constraints().size() - 1);
+                if (circuit_ptr->copy_constraints().size() == previous_size) {
+                    used_copy_constraints.erase(used);
                 }
             }
 
-- 
2.43.0


From 867328d2c720c9f84e57e5de88d2dbac6762508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:17 +0000
Subject: [PATCH 18/69] fix: do not give two reserved lookup tables the same
 index after a failed reservation

---
 include/nil/blueprint/lookup_library.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/lookup_library.hpp b/include/nil/blueprint/lookup_library.hpp
index f1e6487..cfee8f0 100644
--- a/include/nil/blueprint/lookup_library.hpp
+++ b/include/nil/blueprint/lookup_library.hpp
@@ -402,8 +402,7 @@ namespace nil {
                 BOOST_ASSERT(tables.find(table_name) != tables.end());
                 std::string subtable_name = name.substr(name.find("/")+1, name.size());
                 BOOST_ASSERT(tables[table_name]->subtables.find(subtable_name) != tables[table_name]->subtables.end());
-                reserved_tables.insert(name);
-                reserved_tables_indices.left.insert(std::make_pair(name, reserved_tables.size()));
+                reserve_index(name);
             }
 
             void reserve_dynamic_table(std::string name){
@@ -411,8 +410,7 @@ namespace nil {
                 BOOST_ASSERT(!reserved_all);
 
                 register_dynamic_table(name);
-                reserved_tables.insert(name);
-                reserved_tables_indices.left.insert(std::make_pair(name, reserved_tables.size()));
+                reserve_index(name);
             }
 
             void define_dynamic_table(std::string table_name, const crypto3::zk::snark::plonk_lookup_table<BlueprintFieldType> &lookup_table){
@@ -471,6 +469,17 @@ namespace nil {
                 return reserved_dynamic_tables_map;
             }
         protected:
+            // the name and its index are reserved together or not at all
+            void reserve_index(const std::string &name){
+                const auto reserved = reserved_tables.insert(name);
+                try {
+                    reserved_tables_indices.left.insert(std::make_pair(name, reserved_tables.size()));
+                } catch (...) {
+                    if (reserved.second) reserved_tables.erase(reserved.first);
+                    throw;
+                }
+            }
+
             mutable bool reserved_all;
 
             std::set<std::string> reserved_tables;
-- 
2.43.0


From a0ad31fbfe62f3679fdd4fe25a5db28e8d4e053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:44 +0000
Subject: [PATCH 19/69] fix: do not keep a batched constant that could not be
 recorded

---
 include/nil/blueprint/blueprint/plonk/assignment.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index 3677e46..4ad1f7d 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -583,8 +583,13 @@ namespace nil {
                     std::make_pair<std::reference_wrapper<const value_type>, std::size_t>(std::cref(value), 0));
                 if (existing_const == assignment_batch_constant_storage_set.end()) {
                     assignment_batch_constant_storage.push_back(value);
-                    assignment_batch_constant_storage_set.insert(std::make_pair(std::cref(assignment_batch_constant_storage.back()),
-                                                                                assignment_batch_constant_storage.size() - 1));
+                    try {
+                        assignment_batch_constant_storage_set.insert(std::make_pair(std::cref(assignment_batch_constant_storage.back()),
+                                                                                    assignment_batch_constant_storage.size() - 1));
+                    } catch (...) {
+                        assignment_batch_constant_storage.pop_back();
+                        throw;
+                    }
                     return var(batch_constant_storage_index, assignment_batch_constant_storage.size() - 1, false,
                                var::column_type::constant);
                 } else {
-- 
2.43.0


From d662be6f95785a31c51b997f794db50e628bd6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:16 +0000
Subject: [PATCH 20/69] fix: save all shared values of a list or none of them

---
 .../blueprint/blueprint/plonk/assignment_proxy.hpp   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 32c360b..7f7195d 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -489,9 +489,17 @@ namespace nil {
         std::vector<crypto3::zk::snark::plonk_variable<typename BlueprintFieldType::value_type>> save_shared_var(
                 assignment_proxy<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &input_assignment,
                 const std::vector<crypto3::zk::snark::plonk_variable<typename BlueprintFieldType::value_type>> &input_vars) {
-            std::vector<crypto3::zk::snark::plonk_variable<typename BlueprintFieldType::value_type>> res;
+            using var = crypto3::zk::snark::plonk_variable<typename BlueprintFieldType::value_type>;
+            const std::uint32_t row_index = input_assignment.shared_column_size(0);
+            std::vector<var> res;
+            std::vector<typename BlueprintFieldType::value_type> values;
             for (const auto &it : input_vars) {
-                res.push_back(save_shared_var(input_assignment, it));
+                res.push_back(var(1, row_index + res.size(), false, var::column_type::public_input));
+                values.push_back(var_value(input_assignment, it));
+            }
+            // the last one first: either all of them get a row or none does
+            for (std::size_t i = values.size(); i > 0; i--) {
+                input_assignment.shared(0, row_index + i - 1) = values[i - 1];
             }
             return res;
         }
-- 
2.43.0


From 33b170b5477f864f1e7789cc33f0d3de3044b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:05 +0000
Subject: [PATCH 21/69] fix: report a query for an unknown dynamic lookup table
 instead of crashing

---
 include/nil/blueprint/lookup_library.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nil/blueprint/lookup_library.hpp b/include/nil/blueprint/lookup_library.hpp
index cfee8f0..4ac3a31 100644
--- a/include/nil/blueprint/lookup_library.hpp
+++ b/include/nil/blueprint/lookup_library.hpp
@@ -422,6 +422,7 @@ namespace nil {
             }
 
             std::shared_ptr<dynamic_table_definition> get_dynamic_table_definition(std::string table_name){
+                BOOST_ASSERT(dynamic_tables.find(table_name) != dynamic_tables.end());
                 auto table = dynamic_tables[table_name];
                 BOOST_ASSERT(table->is_defined());
                 return std::shared_ptr<dynamic_table_definition>(table);
-- 
2.43.0


From e5183bd092f66eb69803a4aea90f377366def319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:05 +0000
Subject: [PATCH 22/69] fix: keep the definition of a dynamic lookup table that
 is reserved again

---
 include/nil/blueprint/lookup_library.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/lookup_library.hpp b/include/nil/blueprint/lookup_library.hpp
index 4ac3a31..a2359f8 100644
--- a/include/nil/blueprint/lookup_library.hpp
+++ b/include/nil/blueprint/lookup_library.hpp
@@ -409,7 +409,9 @@ namespace nil {
                 BOOST_ASSERT(tables.find(name) == tables.end());
                 BOOST_ASSERT(!reserved_all);
 
-                register_dynamic_table(name);
+                // Reserving a table once more keeps its definition
+                if (dynamic_tables.find(name) == dynamic_tables.end())
+                    register_dynamic_table(name);
                 reserve_index(name);
             }
 
-- 
2.43.0


From 788ebae8ce2b772c8ac07d310ec6874fb9872387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:21 +0000
Subject: [PATCH 23/69] fix: do not claim rows for a table view when constants
 are finalised through it

---
 include/nil/blueprint/blueprint/plonk/assignment.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index 4ad1f7d..6b3947f 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -35,6 +35,7 @@
 #include <ostream>
 #include <unordered_map>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 #include <boost/type_erasure/any.hpp>
@@ -267,7 +268,7 @@ namespace nil {
                         for (const auto &variable : variable_set) {
                             for (std::size_t row = start_row_index - 1;
                                  row < this->selector_column_size(gate.selector_index); row++) {
-                                if (this->selector(gate.selector_index, row) == value_type::one()) {
+                                if (std::as_const(*this).selector(gate.selector_index, row) == value_type::one()) {
                                     used_constants[row + variable.rotation - start_row_index] = true;
                                 }
                             }
@@ -291,7 +292,7 @@ namespace nil {
                         for (const auto &variable : variable_set) {
                             for (std::size_t row = start_row_index - 1;
                                  row < this->selector_column_size(gate.tag_index); row++) {
-                                if (this->selector(gate.tag_index, row) == BlueprintFieldType::value_type::one()) {
+                                if (std::as_const(*this).selector(gate.tag_index, row) == BlueprintFieldType::value_type::one()) {
                                     used_constants[row + variable.rotation - start_row_index] = true;
                                 }
                             }
-- 
2.43.0


From 6c18ddfb0f20916ce91155db6f634ad3c41b72e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:07 +0000
Subject: [PATCH 24/69] fix: keep constants that gates read when batched
 constants are finalised

---
 .../blueprint/blueprint/plonk/assignment.hpp  | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index 6b3947f..1b43da7 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -245,6 +245,16 @@ namespace nil {
                                 variable.index == const_column &&
                                 variable.rotation >= start_row_index;
                     };
+                    // variables of gates are relative to the rows the gate is enabled on
+                    auto relative_var_check = [const_column](const var &variable) -> bool {
+                        return variable.type == var::column_type::constant && variable.index == const_column;
+                    };
+                    auto mark_used = [&used_constants, start_row_index](std::size_t row, const var &variable) {
+                        const std::size_t cell_row = row + variable.rotation;
+                        if (cell_row >= start_row_index && cell_row - start_row_index < used_constants.size()) {
+                            used_constants[cell_row - start_row_index] = true;
+                        }
+                    };
                     for (const auto &constraint : immutable_copy_constraints) {
                         for (const auto variable : {&(constraint.first), &(constraint.second)}) {
                             if (var_check(*variable)) {
@@ -256,8 +266,8 @@ namespace nil {
                     for (const auto &gate : gates) {
                         std::unordered_set<var> variable_set;
                         std::function<void(var)> variable_extractor =
-                            [&variable_set, &var_check](const var &variable) {
-                                if (var_check(variable)) {
+                            [&variable_set, &relative_var_check](const var &variable) {
+                                if (relative_var_check(variable)) {
                                     variable_set.insert(variable);
                                 }
                             };
@@ -269,7 +279,7 @@ namespace nil {
                             for (std::size_t row = start_row_index - 1;
                                  row < this->selector_column_size(gate.selector_index); row++) {
                                 if (std::as_const(*this).selector(gate.selector_index, row) == value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(row, variable);
                                 }
                             }
                         }
@@ -278,8 +288,8 @@ namespace nil {
                     for (const auto &gate : lookup_gates) {
                         std::unordered_set<var> variable_set;
                         std::function<void(var)> variable_extractor =
-                            [&variable_set, &var_check](const var &variable) {
-                                if (var_check(variable)) {
+                            [&variable_set, &relative_var_check](const var &variable) {
+                                if (relative_var_check(variable)) {
                                     variable_set.insert(variable);
                                 }
                             };
@@ -293,7 +303,7 @@ namespace nil {
                             for (std::size_t row = start_row_index - 1;
                                  row < this->selector_column_size(gate.tag_index); row++) {
                                 if (std::as_const(*this).selector(gate.tag_index, row) == BlueprintFieldType::value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(row, variable);
                                 }
                             }
                         }
-- 
2.43.0


From 01535c5abd91d4703a6d8977bd2d2fbe07e56e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:07 +0000
Subject: [PATCH 25/69] fix: keep constants of lookup tables when batched
 constants are finalised

---
 .../blueprint/blueprint/plonk/assignment.hpp  | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index 1b43da7..db8aae1 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -308,6 +308,29 @@ namespace nil {
                             }
                         }
                     }
+                    for (const auto &table : bp.lookup_tables()) {
+                        std::unordered_set<var> variable_set;
+                        std::function<void(var)> variable_extractor =
+                            [&variable_set, &relative_var_check](const var &variable) {
+                                if (relative_var_check(variable)) {
+                                    variable_set.insert(variable);
+                                }
+                            };
+                        nil::crypto3::math::expression_for_each_variable_visitor<var> visitor(variable_extractor);
+                        for (const auto &option : table.lookup_options) {
+                            for (const auto &constraint : option) {
+                                visitor.visit(constraint);
+                            }
+                        }
+                        for (const auto &variable : variable_set) {
+                            for (std::size_t row = start_row_index - 1;
+                                 row < this->selector_column_size(table.tag_index); row++) {
+                                if (std::as_const(*this).selector(table.tag_index, row) == value_type::one()) {
+                                    mark_used(row, variable);
+                                }
+                            }
+                        }
+                    }
                 }
                 std::size_t row = start_row_index;
                 std::unordered_map<var, var> batch_variable_map;
-- 
2.43.0


From 7acd3799c22e660dda917b9dfe1703a277ab343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:37 +0000
Subject: [PATCH 26/69] fix: evaluate gates and lookups when checking a
 prover's view of a table

---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 7f7195d..a19869f 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -518,7 +518,9 @@ namespace nil {
 
             const auto& selector_rows = assignments.get_used_selector_rows();
 
-            return is_satisfied(bp, assignments, used_gates, used_lookup_gates, used_copy_constraints, selector_rows);
+            // gates and lookups are evaluated on the columns of the table itself, which a view does not hold
+            return is_satisfied(bp, assignments.get(), used_gates, used_lookup_gates, {}, selector_rows) &&
+                   is_satisfied(bp, assignments, {}, {}, used_copy_constraints, selector_rows);
         }
     }    // namespace blueprint
 }    // namespace nil
-- 
2.43.0


From c1467cf39c71fd7c72703fc0c2b2039f13df5b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:39 +0000
Subject: [PATCH 27/69] fix: check gates on every row of a table, not only on
 rows written cell by cell

---
 include/nil/blueprint/utils/satisfiability_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/utils/satisfiability_check.hpp b/include/nil/blueprint/utils/satisfiability_check.hpp
index 2f8799e..6804f6d 100644
--- a/include/nil/blueprint/utils/satisfiability_check.hpp
+++ b/include/nil/blueprint/utils/satisfiability_check.hpp
@@ -60,7 +60,7 @@ namespace nil {
             }
 
             std::set<uint32_t> selector_rows;
-            for (std::uint32_t i = 0; i < assignments.allocated_rows(); i++) {
+            for (std::uint32_t i = 0; i < assignments.rows_amount(); i++) {
                 selector_rows.insert(i);
             }
 
-- 
2.43.0


From 700353227f6729367d94623575e9f808e1b740be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:54 +0000
Subject: [PATCH 28/69] fix: look a value up only among the rows of the named
 subtable

---
 include/nil/blueprint/utils/satisfiability_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/utils/satisfiability_check.hpp b/include/nil/blueprint/utils/satisfiability_check.hpp
index 6804f6d..3ca8c54 100644
--- a/include/nil/blueprint/utils/satisfiability_check.hpp
+++ b/include/nil/blueprint/utils/satisfiability_check.hpp
@@ -197,7 +197,7 @@ namespace nil {
                                 // We can cache it with sorting, or use KMP, but I need a simple solution first
                                 bool found = false;
                                 BOOST_ASSERT(columns_number == input_values.size());
-                                for (std::size_t k = 0; k < table[0].size(); k++) {
+                                for (std::size_t k = subtable.begin; k <= subtable.end && k < table[0].size(); k++) {
                                     bool match = true;
                                     for (std::size_t l = 0; l < columns_number; l++) {
                                         if (table[subtable.column_indices[l]][k] != input_values[l]) {
-- 
2.43.0


From c494110d0e6b2fbcbc8e3ad59bc3cd8872645167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:58 +0000
Subject: [PATCH 29/69] fix: share finished batch variables between views of a
 table

A view replaced batched variables in copy constraints using only its own
finished batches, so a variable finished by another view was left behind.
---
 include/nil/blueprint/blueprint/plonk/assignment.hpp      | 7 ++++++-
 .../nil/blueprint/blueprint/plonk/assignment_proxy.hpp    | 8 ++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index db8aae1..59a5c3a 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -205,6 +205,7 @@ namespace nil {
 
             std::size_t finalize_component_batches(nil::blueprint::circuit<ArithmetizationType> &bp,
                                                    std::size_t start_row_index) {
+                auto &batch_variable_map = this->mutable_batch_variable_map();
                 std::size_t next_row_index = start_row_index;
                 for (auto& batch : component_batches) {
                     // safe because the ordering doesn't depend on the batch inputs
@@ -222,7 +223,11 @@ namespace nil {
                 return next_row_index;
             }
 
-            const std::unordered_map<var, var>& get_batch_variable_map() const {
+            virtual const std::unordered_map<var, var>& get_batch_variable_map() const {
+                return batch_variable_map;
+            }
+
+            virtual std::unordered_map<var, var>& mutable_batch_variable_map() {
                 return batch_variable_map;
             }
 
diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index a19869f..34d4ada 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -327,6 +327,14 @@ namespace nil {
                 return assignment_ptr->add_batch_variable(value);
             }
 
+            const std::unordered_map<var, var>& get_batch_variable_map() const override {
+                return assignment_ptr->get_batch_variable_map();
+            }
+
+            std::unordered_map<var, var>& mutable_batch_variable_map() override {
+                return assignment_ptr->mutable_batch_variable_map();
+            }
+
             std::size_t batch_constant_storage_size() const override {
                 return assignment_ptr->batch_constant_storage_size();
             }
-- 
2.43.0


From 7948f847eedac5dd842cb56c0d29cd9a04dcbc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:21 +0000
Subject: [PATCH 30/69] fix: keep a batched request when recording its result
 fails

Marking the request as assigned erased and reinserted it, so a failed
allocation lost the variables already handed out.
---
 include/nil/blueprint/component_batch.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/nil/blueprint/component_batch.hpp b/include/nil/blueprint/component_batch.hpp
index c55debd..c528e8d 100644
--- a/include/nil/blueprint/component_batch.hpp
+++ b/include/nil/blueprint/component_batch.hpp
@@ -277,9 +277,7 @@ namespace nil {
                         parent_assignment.batch_private_storage(unsassigned_vars[i].get().rotation) =
                             var_value(internal_assignment, result_vars[i].get());
                     }
-                    inputs_results.erase(input);
-                    bool insertion_result = inputs_results.insert({input, {unassigned_result, true}}).second;
-                    BOOST_ASSERT(insertion_result);
+                    inputs_results.find(input)->second.second = true;
                     return unassigned_result;
                 }
             }
-- 
2.43.0


From 3a7614dd27e3f921db445bca95f227bbd7e2e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:57 +0000
Subject: [PATCH 31/69] fix: give the lookup logic components their own include
 guard

They shared the guard of the plain logic components, so only one of the two
headers could be used in a program.
---
 .../algebra/fields/plonk/non_native/lookup_logic_ops.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp
index 0fb8aac..b8796d0 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp
@@ -22,8 +22,8 @@
 // SOFTWARE.
 //---------------------------------------------------------------------------//
 
-#ifndef CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_logic_OPS_HPP
-#define CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_logic_OPS_HPP
+#ifndef CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_LOOKUP_LOGIC_OPS_HPP
+#define CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_LOOKUP_LOGIC_OPS_HPP
 
 #include <nil/marshalling/algorithms/pack.hpp>
 
@@ -200,4 +200,4 @@ namespace nil {
     }        // namespace blueprint
 }    // namespace nil
 
-#endif    // CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_logic_OPS_HPP
+#endif    // CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_LOOKUP_LOGIC_OPS_HPP
-- 
2.43.0


From 6a9360885465f12999b41cd3c1287440a4d8e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:25 +0000
Subject: [PATCH 32/69] fix: let a left shift by a constant be assigned before
 its circuit exists

The assignment pass read a zero constant that only circuit generation wrote.
---
 .../components/algebra/fields/plonk/bit_shift_constant.hpp      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp b/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp
index abc02e1..5ffe316 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp
@@ -245,6 +245,8 @@ namespace nil {
                 typename composition_component_type::input_type composition_input;
                 composition_input.bits.resize(component.composition_subcomponent.bits_amount);
                 if (component.mode == bit_shift_mode::LEFT) {
+                    // The circuit might not have been generated yet
+                    assignment.constant(component.C(0), start_row_index) = 0;
                     var zero(0, start_row_index, false, var::column_type::constant);
                     std::fill(composition_input.bits.begin(), composition_input.bits.end(), zero);
 
-- 
2.43.0


From 073eb2d824bef81318f197e1ba58ca324e9fa3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:15 +0000
Subject: [PATCH 33/69] fix: place each bit of a result-only decomposition in
 its own cell

With fewer than nine witness columns the bits wrapped around onto the same
cells.
---
 .../plonk/non_native/bit_decomposition.hpp       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
index 544ad56..b8a6b3b 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
@@ -99,12 +99,15 @@ namespace nil {
                     return component_type::get_rows_amount(witness_amount, bits_amount, true);
                 }
 
-                constexpr static std::size_t get_empty_rows_amount(std::size_t bits_amount, bit_composition_mode mode) {
-                    return bits_amount / 9 + (bits_amount % 9 != 0);
+                constexpr static std::size_t get_empty_rows_amount(std::size_t bits_amount, bit_composition_mode mode,
+                                                                   std::size_t bits_per_row = 9) {
+                    return bits_amount / bits_per_row + (bits_amount % bits_per_row != 0);
                 }
 
                 const bit_composition_mode mode;
-                const std::size_t empty_rows_amount = get_empty_rows_amount(this->bits_amount, this->mode);
+                const std::size_t empty_bits_per_row = std::min<std::size_t>(9, this->witness_amount());
+                const std::size_t empty_rows_amount =
+                    get_empty_rows_amount(this->bits_amount, this->mode, empty_bits_per_row);
                 const std::string component_name = "bit_decomposition";
 
                 struct input_type {
@@ -135,7 +138,8 @@ namespace nil {
                         output.resize(component.bits_amount);
 
                         for (std::size_t i = 0; i < component.bits_amount; i++) {
-                            output[i] = var(component.W(i % 9), start_row_index + i / 9, false);
+                            output[i] = var(component.W(i % component.empty_bits_per_row),
+                                            start_row_index + i / component.empty_bits_per_row, false);
                         }
                     }
 
@@ -254,7 +258,9 @@ namespace nil {
                 std::vector<bool> bits = component_type::calculate(input_data, component.bits_amount, component.mode);
 
                 for (std::size_t i = 0; i < component.bits_amount; i++) {
-                    assignment.witness(component.W(i % 9), start_row_index + i / 9) = value_type(bits[i] ? 1 : 0);
+                    assignment.witness(component.W(i % component.empty_bits_per_row),
+                                       start_row_index + i / component.empty_bits_per_row) =
+                        value_type(bits[i] ? 1 : 0);
                 }
 
                 return typename plonk_bit_decomposition<BlueprintFieldType>::result_type(
-- 
2.43.0


From bc781fe747102fda7c376a9a6c66cd77f2d76308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:37 +0000
Subject: [PATCH 34/69] fix: constant powers that are powers of four or fill
 their last row

The chunk count of a power of four was one short, and a result in the last
column of a row was reported in the wrong column.
---
 .../components/systems/snark/plonk/flexible/constant_pow.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index cdee480..d49920d 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -45,7 +45,7 @@ namespace nil {
             std::size_t integral_type_log2(typename BlueprintFieldType::integral_type pow){
                 std::size_t result = 0;
                 typename BlueprintFieldType::integral_type a = 1;
-                while( a < pow ){
+                while( a <= pow ){
                     a *= 2;
                     result++;
                 }
@@ -155,7 +155,7 @@ namespace nil {
                     result_type(const flexible_constant_pow &component, std::size_t start_row_index) {
                         // TODO define output var
                         std::size_t witness_amount = component.witness_amount();
-                        std::size_t last_column_id = component.four_chunks.size()%(witness_amount - 2) + 1;
+                        std::size_t last_column_id = (component.four_chunks.size() - 1)%(witness_amount - 2) + 2;
                         y = var(component.W(last_column_id), start_row_index + component.rows_amount-1, false);
                     }
 
-- 
2.43.0


From 7cb4738a615595939e8d6ca65a6693aa54f27b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:05 +0000
Subject: [PATCH 35/69] fix: a non-empty range of witness amounts is
 satisfiable

The check compared the length of the range with start % step, so a range
holding a single value, such as the one pow_factor uses for powers below
six, was reported as unsatisfiable and the component could not be built.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index e38052d..489991f 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -401,7 +401,7 @@ namespace nil {
                 : start(start), finish(finish_), step(step) {}
 
             bool is_satisfiable() override {
-                return start < finish && std::abs(start - finish) >= int(start % step);
+                return start < finish;
             }
 
             bool check_manifest_param(std::uint32_t value, bool strict = true) override {
-- 
2.43.0


From 4e28a58e37cac2faee28d2a0ac97299cea062793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:13 +0000
Subject: [PATCH 36/69] fix: compute manifests that depend on parameters on
 every request

A function-local static kept the answer for the first parameters asked for
and returned it for all later ones.
---
 .../algebra/fields/plonk/non_native/comparison_checked.hpp      | 2 +-
 .../algebra/fields/plonk/non_native/comparison_flag.hpp         | 2 +-
 .../blueprint/components/algebra/fields/plonk/range_check.hpp   | 2 +-
 .../components/systems/snark/plonk/flexible/pow_factor.hpp      | 2 +-
 .../systems/snark/plonk/placeholder/fri_array_swap.hpp          | 2 +-
 .../components/systems/snark/plonk/placeholder/fri_cosets.hpp   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 2fa2b6a..207c634 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -170,7 +170,7 @@ namespace nil {
 
                 static manifest_type get_manifest(std::size_t bits_amount,
                                                   comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(
                                 3, std::max<std::size_t>(4, (bits_amount + chunk_size - 1) / chunk_size + 1))),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index 44dee4f..22b2904 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -190,7 +190,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount, comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(3, std::max<std::size_t>(4, (bits_amount + 28 - 1) / 28 + 1))),
                         false
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
index 6bf2e22..96cbc00 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
@@ -135,7 +135,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(2, std::max<std::size_t>(3, bits_amount / chunk_size + 2))),
                         true
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
index a9e69d9..3a14ac9 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
@@ -112,7 +112,7 @@ namespace nil {
 
                 static manifest_type get_manifest(
                     std::size_t power) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(new manifest_range_param(10, 10 + power / 6 + 1, 8)),
                         true
                     );
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
index adeaa84..b721e30 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
@@ -87,7 +87,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t half_array_size) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         // TODO: make the manifest depend on half_array_size
                         // this requires the manifest rework
                         std::shared_ptr<manifest_param>(new manifest_range_param(5, 5 + 4 * (half_array_size - 1) + 1, 4)),
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
index 85f13a5..7b8e01a 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
@@ -137,7 +137,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t n, value_type omega) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(9, n * 9 + 1, 9)
                         ),
-- 
2.43.0


From be9e0922b0d8a6b9f031546e2a2932a479aa24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:08 +0000
Subject: [PATCH 37/69] fix: constrain every step of the third lookup loop

With a width divisible by four the gates of the later steps repeated the
constraint of the first step, so their running sums were unconstrained.
A loop that fits in one row also tied its first step to the row before it.
---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index 21e939d..4a43401 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -230,7 +230,7 @@ namespace nil {
                         auto constraint_ =
                             var(component.W(j), 0) - var(component.W(j - 4), 0) -
                             (var(component.W(j - 2), 0) - var(component.W(j - 1), 0)) * var(component.W(j - 3), 0);
-                        selectors.push_back(bp.add_gate({constraint_2}));
+                        selectors.push_back(bp.add_gate({constraint_}));
                     }
                 } else if (witness_amount % 4 == 2) {
                     auto constraint_2 = var(component.W(1), 0) - var(component.W(witness_amount - 3), -1) -
@@ -353,6 +353,8 @@ namespace nil {
                     }
                     r = component.rows_amount - 1;
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 4 + 1)], row + r);
                     }
                 } else if (witness_amount % 4 == 2) {
@@ -368,6 +370,8 @@ namespace nil {
                     r = component.rows_amount - 1;
                     start_j = 3 - 2 * (r % 2);
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 2 + 1)], row + r);
                     }
                 } else {
@@ -391,6 +395,8 @@ namespace nil {
                         start_j = (3 - x) + (x - 2) * (r % 4 - 1);
                     }
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[j + 1], row + r);
                     }
                 }
-- 
2.43.0


From fa1dc005b97f13f0a1704fee93c24e984d245984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:47 +0000
Subject: [PATCH 38/69] fix: do not take the first row of an opcode for its
 second after a one-row opcode

The row before the first row of an opcode may itself start an opcode, when
that opcode takes one row.  The second row of an opcode was recognised by the
step flag of the row before it alone, so its constraints were also applied to
the first row and a correct trace was rejected.
---
 include/nil/blueprint/zkevm/zkevm_circuit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/zkevm_circuit.hpp b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
index 5aec158..d875678 100644
--- a/include/nil/blueprint/zkevm/zkevm_circuit.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
@@ -225,7 +225,8 @@ namespace nil {
                     return state.step_selection.variable();
                 }
                 if (row == opcode_height - 2) {
-                    return state.step_selection.variable(-1);
+                    // the previous row might also be the only row of the previous opcode
+                    return state.step_selection.variable(-1) * (1 - state.step_selection.variable());
                 }
                 if (row == 0) {
                     return 1 - height_var * height_var_inv;
-- 
2.43.0


From f0d1ccffb2232eb36915ebd8c7235f31037c5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:47 +0000
Subject: [PATCH 39/69] fix: a quotient must not satisfy division modulo 2^256
 only

The products of high chunks of the quotient and the divisor and the carry out
of the equality were ignored, so a wrong quotient could be accepted when its
product with the divisor differs from the dividend by a multiple of 2^256.
---
 include/nil/blueprint/zkevm/operations/div.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/blueprint/zkevm/operations/div.hpp b/include/nil/blueprint/zkevm/operations/div.hpp
index f170a03..db1ad9c 100644
--- a/include/nil/blueprint/zkevm/operations/div.hpp
+++ b/include/nil/blueprint/zkevm/operations/div.hpp
@@ -160,6 +160,14 @@ namespace nil {
                 // add constraints for c_2/c_4: c_2 is 0/1, c_4 is 0/1/2/3
                 constraints.push_back(position_1 * c_2 * (c_2 - 1));
                 constraints.push_back(position_1 * c_4 * (c_4 - 1) * (c_4 - 2) * (c_4 - 3));
+                // the equality holds over integers, not only modulo 2^256: nothing is carried out of it,
+                // and all the products of chunks which do not fit into 256 bits are zero
+                constraints.push_back(position_1 * (c_3_64 + c_4 * two_64));
+                constraint_type overflow =
+                    r_64_chunks_1[1] * b_64_chunks_1[3] + r_64_chunks_1[2] * b_64_chunks_1[2] +
+                    r_64_chunks_1[3] * b_64_chunks_1[1] + r_64_chunks_1[2] * b_64_chunks_1[3] +
+                    r_64_chunks_1[3] * b_64_chunks_1[2] + r_64_chunks_1[3] * b_64_chunks_1[3];
+                constraints.push_back(position_1 * overflow);
                 // TODO: figure out how to add lookup constraints to constrain chunks of q
                 // force r = 0 if b = 0
                 constraint_type b_zero = 1 - b_sum_inverse_1 * b_sum_1;
-- 
2.43.0


From 44ceed231c39da9435d64375bf15f307636cf2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:11 +0000
Subject: [PATCH 40/69] fix: tie the state selector's index to the caller's
 cell

generate_circuit never added the copy constraint, so the selected option
did not have to be the one the caller asked for.
---
 include/nil/blueprint/zkevm/state_selector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nil/blueprint/zkevm/state_selector.hpp b/include/nil/blueprint/zkevm/state_selector.hpp
index 7a4462d..385be83 100644
--- a/include/nil/blueprint/zkevm/state_selector.hpp
+++ b/include/nil/blueprint/zkevm/state_selector.hpp
@@ -267,6 +267,7 @@ namespace nil {
 
                 std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
                 assignment.enable_selector(selector_index, start_row_index, start_row_index);
+                generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
                 return typename component_type::result_type(component, start_row_index);
             }
-- 
2.43.0


From cc3e8246dd777c52389f965be3b95e8d31d79b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:11 +0000
Subject: [PATCH 41/69] fix: use the component's columns for the constants and
 first power of exponentiation

The copy constraints named a constant column by a witness column's number,
and the first intermediate result was written to a fixed column.
---
 .../components/algebra/fields/plonk/exponentiation.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
index 35584b4..d4c2f84 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
@@ -230,7 +230,7 @@ namespace nil {
 
                         // we use first empty row to unify first row gate with others
                         assignment.witness(component.W(1), start_row_index) = 0u;
-                        assignment.witness(component.intermediate_start + component.intermediate_results_per_row - 1, start_row_index) = 1u;
+                        assignment.witness(component.W(component.intermediate_start + component.intermediate_results_per_row - 1), start_row_index) = 1u;
                         std::size_t start_row_padded = start_row_index + 1;
 
                         std::size_t current_bit = 0;
@@ -325,8 +325,8 @@ namespace nil {
 
                        	using var = typename plonk_exponentiation<BlueprintFieldType, ExponentSize>::var;
 
-                        var zero(component.W(0), start_row_index, false, var::column_type::constant);
-                        var one(component.W(0), start_row_index + 1, false, var::column_type::constant);
+                        var zero(component.C(0), start_row_index, false, var::column_type::constant);
+                        var one(component.C(0), start_row_index + 1, false, var::column_type::constant);
 
                         for (std::size_t row = start_row_index + 1; row < start_row_index + component.rows_amount; row++) {
                             bp.add_copy_constraint({{component.W(0), static_cast<int>(row), false}, instance_input.base});
-- 
2.43.0


From a081414aacbda951e0d04ec8719baa4d0a9b97a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:11 +0000
Subject: [PATCH 42/69] fix: read the square root's argument from the
 component's own column

The assignment read column 0 whatever columns the component was given.
---
 include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
index e0e2faa..f74a820 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
@@ -318,7 +318,7 @@ namespace nil {
                 }
 
                 auto mul_instance = mul_component({component.W(0), component.W(1), component.W(2)}, {}, {});
-                var x(0, row, false);
+                var x(component.W(0), row, false);
                 var x_squared = generate_assignments(mul_instance, assignment, {x, x}, row).output;
                 row += mul_instance.rows_amount;
 
-- 
2.43.0


From 938f12d05c287ca5f0e02ad3caad080295f4466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:12 +0000
Subject: [PATCH 43/69] fix: range check the result of foreign addition and
 subtraction in the component's columns

The assignment read the limbs from columns 0 to 3 whatever columns the
component was given.
---
 .../components/algebra/fields/plonk/non_native/addition.hpp    | 3 ++-
 .../components/algebra/fields/plonk/non_native/subtraction.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
index 5ceeaf8..f82057d 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
@@ -333,7 +333,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_addition<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index 78fa308..af1c88a 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -337,7 +337,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_subtraction<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
-- 
2.43.0


From 21064162510b9ac238911c0d4e1229750e11702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:12 +0000
Subject: [PATCH 44/69] fix: enable the selectors of flexible poseidon's own
 gates

The selectors 0, 1, ... were enabled instead, which belong to other gates
unless the component is the first one in the circuit.
---
 .../components/systems/snark/plonk/flexible/poseidon.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
index ea05f3a..22b6339 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
@@ -328,7 +328,7 @@ namespace nil {
 
                 auto selector_indices = generate_gates(component, bp, assignment, instance_input);
                 for( std::size_t i = 0; i < selector_indices.size(); i++){
-                    assignment.enable_selector(i, start_row_index+i);
+                    assignment.enable_selector(selector_indices[i], start_row_index+i);
                 }
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
-- 
2.43.0


From caef994417b43f50d270a50136800a4c73070c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:38 +0000
Subject: [PATCH 45/69] fix: foreign subtraction when the low limb of b exceeds
 that of a by the modulus's

With q = 0 the low limbs' sum a[0] + p[0] - b[0] is negative if b[0] exceeds
a[0] by more than p[0] = 2^66 - 19, and no carry satisfied the constraint.
Add 2^66 on both sides.
---
 .../algebra/fields/plonk/non_native/subtraction.hpp         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index af1c88a..2d75f7b 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -302,7 +302,9 @@ namespace nil {
                 }
                 typename ed25519_field_type::extended_integral_type eddsa_p0 = 
                     eddsa_p & extended_mask;
-                typename BlueprintFieldType::value_type t = a[0] + eddsa_p0 - b[0] + p[0] * q[0];
+                // 2^66 keeps the sum from being negative when b[0] exceeds a[0] by more than eddsa_p0
+                typename BlueprintFieldType::value_type t =
+                    a[0] + eddsa_p0 + (pasta_base << 66) - b[0] + p[0] * q[0];
 
                 typename BlueprintFieldType::value_type u0 = t - r[0];
 
@@ -413,7 +415,7 @@ namespace nil {
                 auto t = var(component.W(0), 0) + p[0] * var(component.W(2), 0);
                 auto constraint_1 =
                     var(component.W(7), -1) * (base << 66) -
-                    (t + eddsa_p0 - var(component.W(1), 0) - var(component.W(0), +1));
+                    (t + eddsa_p0 + (base << 66) - var(component.W(1), 0) - var(component.W(0), +1));
                 auto constraint_2 = var(component.W(2), 0) * (var(component.W(2), 0) - 1);
                 auto constraint_3 =
                     var(component.W(7), -1) -
-- 
2.43.0


From ab2ad7c861da786c37ff988fefc639362a68259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:09 +0000
Subject: [PATCH 46/69] fix: zkEVM bytecode table accepted a contract header
 whose length no byte followed

---
 include/nil/blueprint/zkevm/bytecode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index 2d09e68..f38ca0e 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -477,7 +477,7 @@ namespace nil {
                 constraints.push_back(tag * tag_next * (index_next - index - 1)); // 3. INDEX is incremented for any bytes
                 constraints.push_back((tag - 1) * (length_left - value)); // 4. In contract header length_left == contract length
                 constraints.push_back(tag_next * (length_left - length_left_next - 1)); // 5. In contract bytes each row decrement length_left
-                constraints.push_back(tag * (tag_next - 1) * length_left); // 6. Length_left is zero for last byte in the contract
+                constraints.push_back((tag_next - 1) * length_left); // 6. Length_left is zero for last byte in the contract and for contracts without bytes
                 constraints.push_back(is_opcode * (is_opcode - 1)); // 7. is_opcode is zeroes or ones
                 constraints.push_back((tag - 1) * is_opcode); // 8. is_opcode on HEADER are zeroes
                 constraints.push_back((tag - 1) * tag_next * (is_opcode_next - 1)); // 9. Fist is_opcode on BYTE after HEADER is 1
-- 
2.43.0


From a922aefc7841b2138c5f955296209606c3452502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:09 +0000
Subject: [PATCH 47/69] fix: zkEVM bytecode table let opcodes pass for operands
 of an instruction without any

---
 include/nil/blueprint/zkevm/bytecode.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index f38ca0e..7d231b9 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -493,6 +493,9 @@ namespace nil {
                 std::vector<lookup_constraint_type> lookup_constraints;
                 lookup_constraint_type bytecode_range_check = {lookup_tables_indices.at("byte_range_table/full"), {tag * value}};
 
+                // PUSH_SIZE can't be decreased below zero
+                lookup_constraint_type push_size_range_check = {lookup_tables_indices.at("byte_range_table/full"), {tag * push_size}};
+
                 lookup_constraint_type opcode_constraint = {
                     lookup_tables_indices.at("zkevm_opcodes/full"),
                     {value * is_opcode, push_size * is_opcode , is_opcode}
@@ -505,6 +508,7 @@ namespace nil {
 
                 lookup_constraints.push_back(bytecode_range_check);
                 lookup_constraints.push_back(opcode_constraint);
+                lookup_constraints.push_back(push_size_range_check);
 
                 std::size_t selector_id = bp.get_dynamic_table_definition("zkevm_bytecode")->lookup_table.tag_index;
                 bp.add_gate(selector_id, constraints);
-- 
2.43.0


From 36ce54999c9b63ee891d1f3a5f2a21e8e9bf3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:09 +0000
Subject: [PATCH 48/69] fix: bytecode table tester never looked up the row
 beside the table

---
 include/nil/blueprint/zkevm/bytecode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index 7d231b9..3b096d2 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -767,7 +767,7 @@ namespace nil {
 
                 lookup_constraint_type constraint_aside = {lookup_tables_indices.at("zkevm_bytecode"), {tag, index, value, is_opcode, hash_hi, hash_lo}};
                 std::size_t selector_aside = bp.add_lookup_gate({constraint_aside});
-                assignment.enable_selector(selector_above, start_row_index+1, start_row_index+1);
+                assignment.enable_selector(selector_aside, start_row_index+1, start_row_index+1);
 
                 return typename component_type::result_type(component, start_row_index);
             }
-- 
2.43.0


From 7942f74e38ee0405dfd10d893ebc8b73df400a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:12 +0000
Subject: [PATCH 49/69] fix: multiplication by a constant read column 0 for its
 constants whatever its constant column

---
 .../algebra/fields/plonk/multiplication_by_constant.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp b/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp
index 1d1855c..395cf25 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp
@@ -182,7 +182,7 @@ namespace nil {
                 using var = typename plonk_mul_by_constant<BlueprintFieldType>::var;
 
                 auto constraint_1 =
-                    var(component.W(0), 0) * var(0, 0, true, var::column_type::constant) - var(component.W(1), 0);
+                    var(component.W(0), 0) * var(component.C(0), 0, true, var::column_type::constant) - var(component.W(1), 0);
 
                 return bp.add_gate(constraint_1);
             }
-- 
2.43.0


From 2f72ff20e3d26ca462ab844c458705b03a87471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:12 +0000
Subject: [PATCH 50/69] fix: constant bit shift read column 0 for its constants
 whatever its constant column

---
 .../components/algebra/fields/plonk/bit_shift_constant.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp b/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp
index 5ffe316..d88b970 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp
@@ -247,7 +247,7 @@ namespace nil {
                 if (component.mode == bit_shift_mode::LEFT) {
                     // The circuit might not have been generated yet
                     assignment.constant(component.C(0), start_row_index) = 0;
-                    var zero(0, start_row_index, false, var::column_type::constant);
+                    var zero(component.C(0), start_row_index, false, var::column_type::constant);
                     std::fill(composition_input.bits.begin(), composition_input.bits.end(), zero);
 
                     std::move(decomposition.output.begin() + component.shift, decomposition.output.end(),
@@ -293,7 +293,7 @@ namespace nil {
                 composition_input.bits.resize(component.composition_subcomponent.bits_amount);
                 if (component.mode == bit_shift_mode::LEFT) {
                     // We do not need to set this constant, as it is set by the decomposition component
-                    var zero(0, start_row_index, false, var::column_type::constant);
+                    var zero(component.C(0), start_row_index, false, var::column_type::constant);
                     std::fill(composition_input.bits.begin(), composition_input.bits.end(), zero);
 
                     std::move(decomposition.output.begin() + component.shift, decomposition.output.end(),
-- 
2.43.0


From 6ae3b10a7a66372c514d4dfabb839df0465cd787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:12 +0000
Subject: [PATCH 51/69] fix: square root read column 0 for its constants
 whatever its constant column

---
 .../components/algebra/fields/plonk/sqrt.hpp       | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
index f74a820..cd2565a 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
@@ -199,9 +199,9 @@ namespace nil {
                 using sub_component = typename component_type::sub_component;
                 std::size_t row = start_row_index;
 
-                var exp(0, start_row_index, false, var::column_type::constant);
-                var zero(0, start_row_index + 1, false, var::column_type::constant);
-                var one(0, start_row_index + 2, false, var::column_type::constant);
+                var exp(component.C(0), start_row_index, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index + 1, false, var::column_type::constant);
+                var one(component.C(0), start_row_index + 2, false, var::column_type::constant);
 
                 row += 3; // leave empty cells for exp_component's constants
 
@@ -289,9 +289,9 @@ namespace nil {
                 using sub_component = typename component_type::sub_component;
                 std::size_t row = start_row_index;
 
-                var exp(0, start_row_index, false, var::column_type::constant);
-                var zero(0, start_row_index + 1, false, var::column_type::constant);
-                var one(0, start_row_index + 2, false, var::column_type::constant);
+                var exp(component.C(0), start_row_index, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index + 1, false, var::column_type::constant);
+                var one(component.C(0), start_row_index + 2, false, var::column_type::constant);
 
                 row += 3; // leave empty cells for exp_component's constants
 
@@ -377,7 +377,7 @@ namespace nil {
 
                 using var = typename plonk_sqrt<BlueprintFieldType>::var;
 
-                var zero(0, start_row_index + 1, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index + 1, false, var::column_type::constant);
                 var last_check(component.W(2), start_row_index + component.rows_amount - 1,
                                false, var::column_type::witness);
                 bp.add_copy_constraint({zero, last_check});
-- 
2.43.0


From 48910425da7c064f0cbbec58223f0614f740ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:12 +0000
Subject: [PATCH 52/69] fix: range check read column 0 for its constants
 whatever its constant column

---
 .../blueprint/components/algebra/fields/plonk/range_check.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
index 96cbc00..2db0e0f 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
@@ -377,7 +377,7 @@ namespace nil {
 
                 using var = typename plonk_range_check<BlueprintFieldType>::var;
 
-                var zero(0, start_row_index, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index, false, var::column_type::constant);
                 bp.add_copy_constraint({zero, var(component.W(0), start_row_index, false)});
 
                 for (std::size_t i = 1; i <= component.padding_size; i++) {
-- 
2.43.0


From 7b31b56ab3549efe62e1b2074edf59beba8d7428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:12 +0000
Subject: [PATCH 53/69] fix: bit composition read column 0 for its constants
 whatever its constant column

---
 .../algebra/fields/plonk/non_native/bit_composition.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp
index 7e047f6..dbcd02f 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp
@@ -271,7 +271,7 @@ namespace nil {
                     return component.mode == bit_composition_mode::MSB ? i : component.bits_amount - i - 1;
                 };
 
-                var zero(0, row, false, var::column_type::constant);
+                var zero(component.C(0), row, false, var::column_type::constant);
                 std::size_t padding = 0;
                 for (; padding < component.padding_bits_amount(); padding++) {
                     auto bit_pos = component.bit_position(row, padding);
-- 
2.43.0


From 171d52e731e277854f71b6c15a8688bf6bd7eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:12 +0000
Subject: [PATCH 54/69] fix: bit decomposition read column 0 for its constants
 whatever its constant column

---
 .../algebra/fields/plonk/non_native/bit_decomposition.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
index b8a6b3b..e3426d5 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
@@ -283,7 +283,7 @@ namespace nil {
 
                 std::size_t row = start_row_index;
 
-                var zero(0, row, false, var::column_type::constant);
+                var zero(component.C(0), row, false, var::column_type::constant);
                 std::size_t padding = 0;
                 for (; padding < component.padding_bits_amount(); padding++) {
                     auto bit_pos = component.bit_position(row, padding);
-- 
2.43.0


From 15aa33ca018cc72d3d274ce9d794832179dfcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:12 +0000
Subject: [PATCH 55/69] fix: comparison flag read column 0 for its constants
 whatever its constant column

---
 .../algebra/fields/plonk/non_native/comparison_flag.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index 22b2904..90bb78d 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -799,7 +799,7 @@ namespace nil {
                     using var = typename plonk_comparison_flag<BlueprintFieldType>::var;
 
                     std::size_t row = start_row_index;
-                    var zero(0, start_row_index, false, var::column_type::constant);
+                    var zero(component.C(0), start_row_index, false, var::column_type::constant);
                     for (std::size_t i = 0; i < 3; i++) {
                         bp.add_copy_constraint({zero, var(component.W(i), row, false)});
                     }
-- 
2.43.0


From 7e45273eeb35e00ef074843b94908705a8f15c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:12 +0000
Subject: [PATCH 56/69] fix: checked comparison read column 0 for its constants
 whatever its constant column

---
 .../algebra/fields/plonk/non_native/comparison_checked.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 207c634..8da5ecf 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -382,7 +382,7 @@ namespace nil {
 
                 using var = typename plonk_comparison_checked<BlueprintFieldType>::var;
                 std::uint32_t row = start_row_index;
-                var zero(0, start_row_index, false, var::column_type::constant);
+                var zero(component.C(0), start_row_index, false, var::column_type::constant);
 
                 bp.add_copy_constraint({zero, var(component.W(0), start_row_index, false)});
                 bp.add_copy_constraint({zero, var(component.W(1), start_row_index, false)});
-- 
2.43.0


From 7d2ca2f63baa49da140afce105ab85ddf972bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:12 +0000
Subject: [PATCH 57/69] fix: cosets of FRI read column 0 for its constants
 whatever its constant column

---
 .../systems/snark/plonk/placeholder/fri_cosets.hpp     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
index 7b8e01a..95e11b6 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
@@ -322,7 +322,7 @@ namespace nil {
                 bp.add_copy_constraint({instance_input.x, var(component.W(0), start_row_index, false)});
 
                 // omega
-                bp.add_copy_constraint({var(0, start_row_index, false, var::column_type::constant),
+                bp.add_copy_constraint({var(component.C(0), start_row_index, false, var::column_type::constant),
                                         var(component.W(3), start_row_index, false)});
 
                 // everything that's over total_bits should be zero
@@ -333,17 +333,17 @@ namespace nil {
 
                 if (remaining_bits % (WA/3 - 1) > 0) { // Are there extra bits in the last row?
                     for(std::size_t j = 3*(remaining_bits % (WA/3 - 1) + 1); j < WA; j++) {
-                        bp.add_copy_constraint({var(0, start_row_index + 1, false, var::column_type::constant),
+                        bp.add_copy_constraint({var(component.C(0), start_row_index + 1, false, var::column_type::constant),
                                                 var(component.W(j), start_row_index + component.rows_amount - 2, false)});
                     }
                 }
 
                 // final row first 3-block is all zeros
-                bp.add_copy_constraint({var(0, start_row_index + 1, false, var::column_type::constant),
+                bp.add_copy_constraint({var(component.C(0), start_row_index + 1, false, var::column_type::constant),
                                         var(component.W(0), start_row_index + component.rows_amount - 1, false)});
-                bp.add_copy_constraint({var(0, start_row_index + 1, false, var::column_type::constant),
+                bp.add_copy_constraint({var(component.C(0), start_row_index + 1, false, var::column_type::constant),
                                         var(component.W(1), start_row_index + component.rows_amount - 1, false)});
-                bp.add_copy_constraint({var(0, start_row_index + 1, false, var::column_type::constant),
+                bp.add_copy_constraint({var(component.C(0), start_row_index + 1, false, var::column_type::constant),
                                         var(component.W(2), start_row_index + component.rows_amount - 1, false)});
             }
 
-- 
2.43.0


From 862fc7d84317cc10fec6241d7adf93a2e250b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:29:49 +0000
Subject: [PATCH 58/69] fix: constant power accepted a multiple by any fourth
 power of the true one

---
 .../systems/snark/plonk/flexible/constant_pow.hpp        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index d49920d..cef3927 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -105,8 +105,10 @@ namespace nil {
                             larger_chunks[cur-1] += four_chunks[i];
                         }
                         std::vector<typename BlueprintFieldType::integral_type> unique_chunks;
-                        std::unique_copy(larger_chunks.begin(), larger_chunks.end(), std::back_inserter(unique_chunks));
-                        return unique_chunks.size();
+                        if( larger_chunks.empty() ) return 0;
+                        // the gate of the first row is always different from the others
+                        std::unique_copy(larger_chunks.begin() + 1, larger_chunks.end(), std::back_inserter(unique_chunks));
+                        return unique_chunks.size() + 1;
                     }
                 };
 
@@ -261,6 +263,9 @@ namespace nil {
                     std::vector<constraint_type> constraints;
                     var x_var = var(component.W(0),0,true);
 
+                    if( row == 0 ) {
+                        constraints.push_back(var(component.W(1), 0, true) - 1); // powers start from one
+                    }
                     for (std::size_t cell = 2; cell < witness_amount; cell++ ) {
                         if (cur < four_chunks.size()) {
                             var cur_var = var(component.W(cell),0,true);
-- 
2.43.0


From 87dd513768353881df0609ed42cfbc3ea4c5363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:37 +0000
Subject: [PATCH 59/69] fix: division with remainder accepted negative
 remainders and one equal to the divisor

---
 .../plonk/non_native/division_remainder.hpp   | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
index c940d3d..3f19c1f 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
@@ -62,7 +62,7 @@ namespace nil {
                 using value_type = typename BlueprintFieldType::value_type;
 
                 static std::size_t range_check_amount_internal(bool check_inputs) {
-                    return 2 + 2 * check_inputs;
+                    return 3 + 2 * check_inputs;
                 }
 
                 static bool needs_bonus_row_internal(std::size_t witness_amount) {
@@ -262,7 +262,7 @@ namespace nil {
                 std::vector<constraint_type> constraints;
                 constraint_type division_constraint = x - y * q - r;
                 constraints.push_back(division_constraint);
-                constraint_type y_minus_r_constraint = y - r - y_minus_r;
+                constraint_type y_minus_r_constraint = y - r - 1 - y_minus_r; // r < y
                 constraints.push_back(y_minus_r_constraint);
 
                 return bp.add_gate(constraints);
@@ -315,6 +315,7 @@ namespace nil {
                     x_address = component.get_var_address(var_address::X, start_row_index),
                     y_address = component.get_var_address(var_address::Y, start_row_index),
                     q_address = component.get_var_address(var_address::Q, start_row_index),
+                    r_address = component.get_var_address(var_address::R_, start_row_index),
                     y_minus_r_address = component.get_var_address(var_address::Y_MINUS_R, start_row_index);
 
                 std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
@@ -330,14 +331,18 @@ namespace nil {
                                  {var(component.W(q_address.second), q_address.first, false)}, row);
                 row += component.range_checks[1].rows_amount;
 
+                generate_circuit(component.range_checks[2], bp, assignment,
+                                 {var(component.W(r_address.second), r_address.first, false)}, row);
+                row += component.range_checks[2].rows_amount;
+
                 if (component.check_inputs) {
-                    generate_circuit(component.range_checks[2], bp, assignment,
+                    generate_circuit(component.range_checks[3], bp, assignment,
                                      {var(component.W(x_address.second), x_address.first, false)}, row);
-                    row += component.range_checks[2].rows_amount;
+                    row += component.range_checks[3].rows_amount;
 
-                    generate_circuit(component.range_checks[3], bp, assignment,
+                    generate_circuit(component.range_checks[4], bp, assignment,
                                      {var(component.W(y_address.second), y_address.first, false)}, row);
-                    row += component.range_checks[3].rows_amount;
+                    row += component.range_checks[4].rows_amount;
                 }
 
                 BOOST_ASSERT(row == start_row_index + component.rows_amount);
@@ -386,7 +391,7 @@ namespace nil {
                 assignment.witness(component.W(y_address.second), y_address.first) = y;
                 assignment.witness(component.W(r_address.second), r_address.first) = r;
                 assignment.witness(component.W(q_address.second), q_address.first) = q;
-                assignment.witness(component.W(y_minus_r_address.second), y_minus_r_address.first) = y - r;
+                assignment.witness(component.W(y_minus_r_address.second), y_minus_r_address.first) = y - r - 1;
                 row += 1 + component.needs_bonus_row;
 
                 generate_assignments(component.range_checks[0], assignment,
@@ -397,14 +402,18 @@ namespace nil {
                                      {var(component.W(q_address.second), q_address.first, false)}, row);
                 row += component.range_checks[1].rows_amount;
 
+                generate_assignments(component.range_checks[2], assignment,
+                                 {var(component.W(r_address.second), r_address.first, false)}, row);
+                row += component.range_checks[2].rows_amount;
+
                 if (component.check_inputs) {
-                    generate_assignments(component.range_checks[2], assignment,
+                    generate_assignments(component.range_checks[3], assignment,
                                          {var(component.W(x_address.second), x_address.first, false)}, row);
-                    row += component.range_checks[2].rows_amount;
+                    row += component.range_checks[3].rows_amount;
 
-                    generate_assignments(component.range_checks[3], assignment,
+                    generate_assignments(component.range_checks[4], assignment,
                                          {var(component.W(y_address.second), y_address.first, false)}, row);
-                    row += component.range_checks[3].rows_amount;
+                    row += component.range_checks[4].rows_amount;
                 }
 
                 BOOST_ASSERT(row == start_row_index + component.rows_amount);
-- 
2.43.0


From 0f6f1008ae9d7ad9bbb16aee70c34248ff5f540f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:43 +0000
Subject: [PATCH 60/69] fix: stretched component took its inputs for cells of
 its own in the circuit pass

---
 include/nil/blueprint/component_stretcher.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 7ab175f..86e7a9c 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -471,8 +471,10 @@ namespace nil {
                 circuit<crypto3::zk::snark::plonk_constraint_system<
                     BlueprintFieldType>> tmp_circuit;
 
+                auto converted_input = input_type_converter<ComponentType>::convert(instance_input, assignment,
+                                                                                    tmp_assignment);
                 auto result = generate_circuit(
-                    component.component, tmp_circuit, tmp_assignment, instance_input, 0);
+                    component.component, tmp_circuit, tmp_assignment, converted_input, 0);
                 component.move_circuit(tmp_circuit, tmp_assignment, bp, assignment,
                                        instance_input, start_row_index);
                 return result_type_converter<ComponentType>::convert(component, result, instance_input,
-- 
2.43.0


From a655b63b6dd2785acd6909c1973b809902677a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:43 +0000
Subject: [PATCH 61/69] fix: stretched component counted only the rows of its
 largest zone

---
 include/nil/blueprint/component_stretcher.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 86e7a9c..dcb3bb3 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -269,8 +269,13 @@ namespace nil {
                             }
                         }
                     }
-                    this->rows_amount = std::max_element(zones.zone_sizes.begin(), zones.zone_sizes.end(),
-                                                         [](auto a, auto b) { return a.second < b.second; })->second;
+                    // Several zones may share the same columns, and the constants need their rows too
+                    this->rows_amount = *std::max_element(zone_rows.begin(), zone_rows.end());
+                    for (std::size_t i = this->rows_amount; i < constant_assigned.size(); i++) {
+                        if (constant_assigned[i]) {
+                            this->rows_amount = i + 1;
+                        }
+                    }
                     this->remapping_computed = true;
                 }
 
-- 
2.43.0


From cc1ae1c2fd6b2b694c23d546c587d811e22cfefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:43 +0000
Subject: [PATCH 62/69] fix: stretched component looked up the new row of
 public inputs, which have none

---
 include/nil/blueprint/component_stretcher.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index dcb3bb3..3279a90 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -407,6 +407,9 @@ namespace nil {
                                     old_var,
                                     start_row_index + constant_remapping[old_var.rotation],
                                     instance_input);
+                            } else if (old_var.type == var::column_type::public_input) {
+                                // Not one of the rows of the component
+                                new_var = move_var(old_var, old_var.rotation, instance_input);
                             } else {
                                 new_var = move_var(
                                     old_var,
-- 
2.43.0


From 7ab6d98d5b8a48d28c1e4104578a024154804c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:49 +0000
Subject: [PATCH 63/69] fix: stretched component moved constants away from the
 gates that read them

---
 include/nil/blueprint/component_stretcher.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 3279a90..c4477ef 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -251,6 +251,10 @@ namespace nil {
                     }
                     for (auto curr_var : constrained_constant_vars) {
                         std::size_t new_rotation = line_mapping[curr_var.rotation];
+                        if (zones.constant_priority[curr_var.rotation]) {
+                            // Already placed where the gates read it
+                            continue;
+                        }
                         if (constant_assigned[new_rotation]) {
                             // Need to remap
                             constant_remapping[curr_var.rotation] = first_unassigned_const;
-- 
2.43.0


From a46302a1aa4c3e1b9e609bde18bb6c663ee9cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:49 +0000
Subject: [PATCH 64/69] fix: stretched component searched for a free constant
 row past the last row

---
 include/nil/blueprint/component_stretcher.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index c4477ef..09f2543 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -246,7 +246,8 @@ namespace nil {
                         }
                     }
                     std::size_t first_unassigned_const = 0;
-                    while (constant_assigned[first_unassigned_const]) {
+                    while (first_unassigned_const < constant_assigned.size() &&
+                           constant_assigned[first_unassigned_const]) {
                         first_unassigned_const++;
                     }
                     for (auto curr_var : constrained_constant_vars) {
@@ -259,7 +260,8 @@ namespace nil {
                             // Need to remap
                             constant_remapping[curr_var.rotation] = first_unassigned_const;
                             constant_assigned[first_unassigned_const] = true;
-                            while (constant_assigned[first_unassigned_const]) {
+                            while (first_unassigned_const < constant_assigned.size() &&
+                                   constant_assigned[first_unassigned_const]) {
                                 first_unassigned_const++;
                             }
                         } else {
@@ -267,7 +269,8 @@ namespace nil {
                              constant_remapping[curr_var.rotation] = new_rotation;
                             constant_assigned[new_rotation] = true;
                             if (first_unassigned_const == new_rotation) {
-                                while (constant_assigned[first_unassigned_const]) {
+                                while (first_unassigned_const < constant_assigned.size() &&
+                                       constant_assigned[first_unassigned_const]) {
                                     first_unassigned_const++;
                                 }
                             }
-- 
2.43.0


From 074a99f42e41ea71c08806485a0a8855af9b127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:39:36 +0000
Subject: [PATCH 65/69] fix: expressions were evaluated in the circuit pass and
 left without values in the assignment pass

---
 .../detail/expression_evaluation_component.hpp   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp
index 4a401df..36cf641 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp
@@ -83,7 +83,7 @@ namespace nil {
                             auto coeff_var = assignment_table.add_batch_constant_variable(term.get_coeff());
                             result = assignment_table.template add_input_to_batch<multiplication_component_type>(
                                 {coeff_var, variable_map.at(term.get_vars()[curr_term])},
-                                generate_assignment_call).output;
+                                !generate_assignment_call).output;
                         } else {
                             result = variable_map.at(term.get_vars()[curr_term]);
                         }
@@ -91,7 +91,7 @@ namespace nil {
                         for (; curr_term < term_size; curr_term++) {
                             result = assignment_table.template add_input_to_batch<multiplication_component_type>(
                                 {result, variable_map.at(term.get_vars()[curr_term])},
-                                generate_assignment_call).output;
+                                !generate_assignment_call).output;
                         }
                         return result;
                     }
@@ -108,18 +108,18 @@ namespace nil {
                             if (power % 2 == 0) {
                                 expr_res = assignment_table.template add_input_to_batch<multiplication_component_type>(
                                     {expr_res, expr_res},
-                                    generate_assignment_call).output;
+                                    !generate_assignment_call).output;
                                 power /= 2;
                             } else {
                                 result = assignment_table.template add_input_to_batch<multiplication_component_type>(
                                     {result, expr_res},
-                                    generate_assignment_call).output;
+                                    !generate_assignment_call).output;
                                 power -= 1;
                             }
                         }
                         return assignment_table.template add_input_to_batch<multiplication_component_type>(
                                 {result, expr_res},
-                                generate_assignment_call).output;
+                                !generate_assignment_call).output;
                     }
 
                     var operator()(const nil::crypto3::math::binary_arithmetic_operation<var>& op) {
@@ -129,15 +129,15 @@ namespace nil {
                             case crypto3::math::ArithmeticOperator::ADD:
                                 return assignment_table.template add_input_to_batch<addition_component_type>(
                                             {res1, res2},
-                                            generate_assignment_call).output;
+                                            !generate_assignment_call).output;
                             case crypto3::math::ArithmeticOperator::SUB:
                                 return assignment_table.template add_input_to_batch<subtraction_component_type>(
                                             {res1, res2},
-                                            generate_assignment_call).output;
+                                            !generate_assignment_call).output;
                             case crypto3::math::ArithmeticOperator::MULT:
                                 return assignment_table.template add_input_to_batch<multiplication_component_type>(
                                             {res1, res2},
-                                            generate_assignment_call).output;
+                                            !generate_assignment_call).output;
                             default:
                                 throw std::runtime_error("Unsupported operation");
                         }
-- 
2.43.0


From 7c7daa5f80029309da82d2e22554ae9dacdbbb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:40 +0000
Subject: [PATCH 66/69] fix: the last bit and the point of x_index were dropped
 when the other bits filled its rows

---
 .../components/systems/snark/plonk/flexible/x_index.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
index 095df0e..3182ee7 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
@@ -84,7 +84,7 @@ namespace nil {
 
                 constexpr static std::size_t get_rows_amount(std::size_t witness_amount,
                                                              std::size_t n) {
-                    std::size_t cells = 2 * n;
+                    std::size_t cells = 2 * (n + 1);
                     std::size_t one_row_cells = ((witness_amount-1) / 2)*2;
                     return cells%one_row_cells == 0? cells/one_row_cells: cells/one_row_cells + 1;
                 }
-- 
2.43.0


From 269026cc7ab9af0ca5b9e9c35f66fd730d612fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:44 +0000
Subject: [PATCH 67/69] fix: endo_scalar left the start values of its
 recurrences unconstrained

---
 .../algebra/curves/pasta/plonk/endo_scalar.hpp   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp
index e3d549e..83c8a9a 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp
@@ -120,7 +120,7 @@ namespace nil {
                     const std::size_t scalar_size;
 
                     const std::size_t rows_amount = get_rows_amount(this->witness_amount());
-                    static constexpr std::size_t gates_amount = 2;
+                    static constexpr std::size_t gates_amount = 3;
 
                     constexpr static const typename BlueprintFieldType::value_type endo_r = endo_params::endo_r;
                     constexpr static const typename CurveType::base_field_type::value_type endo_q = endo_params::endo_q;
@@ -182,12 +182,13 @@ namespace nil {
                         const typename plonk_endo_scalar<BlueprintFieldType, CurveType>::input_type instance_input,
                         const std::uint32_t start_row_index) {
 
-                        std::array<std::size_t, 2> selector_indices =
+                        std::array<std::size_t, 3> selector_indices =
                             generate_gates(component, bp, assignment, instance_input);
 
                         std::size_t j = start_row_index;
                         assignment.enable_selector(selector_indices[0], j, j + component.rows_amount - 1);
                         assignment.enable_selector(selector_indices[1], j + component.rows_amount - 1);
+                        assignment.enable_selector(selector_indices[2], j);
 
                         generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
@@ -273,7 +274,7 @@ namespace nil {
                     }
 
                     template<typename BlueprintFieldType, typename CurveType>
-                    std::array<std::size_t, 2> generate_gates(
+                    std::array<std::size_t, 3> generate_gates(
                         const plonk_endo_scalar<BlueprintFieldType, CurveType> &component,
                         circuit<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &bp,
                         assignment<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &assignment,
@@ -339,7 +340,14 @@ namespace nil {
 
                         std::size_t selector_index_2 = bp.add_gate({constraint_12});
 
-                        return {selector_index_1, selector_index_2};
+                        // the recurrences start from n = 0, a = 2, b = 2
+                        auto constraint_13 = var(component.W(0), 0) - 0;
+                        auto constraint_14 = var(component.W(2), 0) - 2;
+                        auto constraint_15 = var(component.W(3), 0) - 2;
+
+                        std::size_t selector_index_3 = bp.add_gate({constraint_13, constraint_14, constraint_15});
+
+                        return {selector_index_1, selector_index_2, selector_index_3};
                     }
 
                     template<typename BlueprintFieldType, typename CurveType>
-- 
2.43.0


From 213f83972632c5ed7d7c5c6a6784222748868bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:54:17 +0000
Subject: [PATCH 68/69] fix: x_index left its start value and the bit it
 answers with unconstrained

---
 .../systems/snark/plonk/flexible/x_index.hpp  | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
index 3182ee7..3e250d3 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
@@ -89,7 +89,7 @@ namespace nil {
                     return cells%one_row_cells == 0? cells/one_row_cells: cells/one_row_cells + 1;
                 }
 
-                constexpr static const std::size_t gates_amount = 1;
+                constexpr static const std::size_t gates_amount = 2;
                 const std::size_t rows_amount = get_rows_amount(this->witness_amount(), n);
 
                 struct input_type {
@@ -208,7 +208,7 @@ namespace nil {
 	        }
 
             template<typename BlueprintFieldType>
-            std::size_t generate_gates(
+            std::array<std::size_t, 2> generate_gates(
                 const plonk_flexible_x_index<BlueprintFieldType> &component,
                 circuit<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &bp,
                 assignment<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>>
@@ -230,7 +230,17 @@ namespace nil {
                     var next = var(component.W(block*2 + 2), 0, true);
                     constraints.push_back( next - prev * prev *(b + omega - omega * b));
                 }
-                return bp.add_gate(constraints);
+                std::size_t selector_index = bp.add_gate(constraints);
+
+                // the powers start from one, and the bit that is answered is a bit
+                var start = var(component.W(0), 0, true);
+                var b0 = var(component.W(1), 0, true);
+                std::vector<constraint_type> first_row_constraints;
+                first_row_constraints.push_back(start - 1);
+                first_row_constraints.push_back(b0 * (b0 - 1));
+                std::size_t first_row_selector_index = bp.add_gate(first_row_constraints);
+
+                return {selector_index, first_row_selector_index};
             }
 
             template<typename BlueprintFieldType>
@@ -295,9 +305,10 @@ namespace nil {
 
                 using component_type = plonk_flexible_x_index<BlueprintFieldType>;
 
-                std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
+                std::array<std::size_t, 2> selector_indices = generate_gates(component, bp, assignment, instance_input);
                 assignment.enable_selector(
-                    selector_index, start_row_index, start_row_index + component.rows_amount - 1);
+                    selector_indices[0], start_row_index, start_row_index + component.rows_amount - 1);
+                assignment.enable_selector(selector_indices[1], start_row_index);
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
                 return typename component_type::result_type(component, start_row_index);
-- 
2.43.0


From c9cc4dfbef8d06903499cfd770b2cd7d40f028e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:27:25 +0000
Subject: [PATCH 69/69] fix: sha512_process reads its round constants from its
 constant column

---
 .../blueprint/components/hashes/sha2/plonk/sha512_process.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
index 3f12426..5d03a46 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
@@ -390,7 +390,7 @@ namespace nil {
                     var(component.W(4), -1) * (one << (sigma_sizes[0] + sigma_sizes[1] + sigma_sizes[2] + sigma_sizes[3])) +
                     var(component.W(2), 0) + var(component.W(3), 0) * (1 << 16) +
                     var(component.W(4), 0) * (one << 32) + var(component.W(5), 0) * (one << 48) +
-                    var(component.W(0), 0, true, var::column_type::constant));
+                    var(component.C(0), 0, true, var::column_type::constant));
                     auto constraint_2 =
                         var(component.W(1), +1) + var(component.W(7), 0) - (var(component.W(2), +1) + m*var(component.W(3), +1));
                     auto constraint_3 =
-- 
2.43.0

