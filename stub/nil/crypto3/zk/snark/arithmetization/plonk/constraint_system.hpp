#pragma once

#include <cstdint>
#include <set>
#include <vector>

#include <nil/crypto3/zk/snark/arithmetization/plonk/assignment.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/copy_constraint.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/gate.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/lookup_gate.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/lookup_table.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/lookup_table_definition.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/table_description.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType>
                class plonk_constraint_system {
                public:
                    typedef FieldType field_type;
                    typedef plonk_constraint<FieldType> constraint_type;
                    typedef plonk_gate<FieldType, plonk_constraint<FieldType>> gate_type;
                    typedef plonk_lookup_gate<FieldType, plonk_lookup_constraint<FieldType>> lookup_gate_type;
                    typedef plonk_lookup_table<FieldType> lookup_table_type;
                    typedef std::vector<gate_type> gates_container_type;
                    typedef std::vector<plonk_copy_constraint<FieldType>> copy_constraints_container_type;
                    typedef std::vector<lookup_gate_type> lookup_gates_container_type;
                    typedef std::vector<lookup_table_type> lookup_tables_type;
                    typedef std::vector<std::size_t> public_input_sizes_type;

                protected:
                    gates_container_type _gates;
                    copy_constraints_container_type _copy_constraints;
                    lookup_gates_container_type _lookup_gates;
                    lookup_tables_type _lookup_tables;
                    public_input_sizes_type _public_input_sizes;

                public:
                    plonk_constraint_system() = default;
                    plonk_constraint_system(const gates_container_type &g, const copy_constraints_container_type &c,
                                            const lookup_gates_container_type &l = {},
                                            const lookup_tables_type &t = {}) :
                        _gates(g),
                        _copy_constraints(c), _lookup_gates(l), _lookup_tables(t) {}

                    std::size_t num_gates() const { return _gates.size(); }
                    const gates_container_type &gates() const { return _gates; }
                    const copy_constraints_container_type &copy_constraints() const { return _copy_constraints; }
                    copy_constraints_container_type &mutable_copy_constraints() { return _copy_constraints; }
                    const lookup_gates_container_type &lookup_gates() const { return _lookup_gates; }
                    std::size_t num_lookup_gates() const { return _lookup_gates.size(); }
                    const lookup_tables_type &lookup_tables() const { return _lookup_tables; }
                    const lookup_table_type &lookup_table(std::size_t table_id) const {
                        return _lookup_tables[table_id];
                    }
                    std::size_t num_lookup_tables() const { return _lookup_tables.size(); }
                    void add_lookup_table(const lookup_table_type &t) { _lookup_tables.push_back(t); }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
