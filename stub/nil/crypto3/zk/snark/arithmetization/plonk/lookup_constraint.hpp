#pragma once

#include <vector>

#include <nil/crypto3/zk/snark/arithmetization/plonk/constraint.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType,
                         typename VariableType = plonk_variable<typename FieldType::value_type>>
                struct plonk_lookup_constraint {
                    typedef VariableType variable_type;
                    typedef plonk_constraint<FieldType, VariableType> constraint_type;

                    std::size_t table_id = 0;
                    std::vector<constraint_type> lookup_input;

                    bool operator==(const plonk_lookup_constraint &o) const {
                        return table_id == o.table_id && lookup_input == o.lookup_input;
                    }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
