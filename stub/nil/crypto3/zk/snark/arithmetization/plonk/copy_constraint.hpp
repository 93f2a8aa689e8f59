#pragma once

#include <nil/crypto3/zk/snark/arithmetization/plonk/variable.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType>
                struct plonk_copy_constraint {
                    typedef plonk_variable<typename FieldType::value_type> variable_type;

                    variable_type first;
                    variable_type second;

                    plonk_copy_constraint() = default;
                    plonk_copy_constraint(const variable_type &a, const variable_type &b) : first(a), second(b) {}

                    bool operator==(const plonk_copy_constraint &o) const {
                        return (first == o.first && second == o.second) || (first == o.second && second == o.first);
                    }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
