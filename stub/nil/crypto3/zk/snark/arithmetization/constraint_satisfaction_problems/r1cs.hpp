#pragma once

#include <cstdint>
#include <vector>

#include <nil/crypto3/zk/math/linear_combination.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType>
                struct r1cs_constraint {
                    math::linear_combination<FieldType> a, b, c;
                };
                template<typename FieldType>
                struct r1cs_constraint_system {
                    typedef FieldType field_type;
                    std::size_t primary_input_size = 0;
                    std::size_t auxiliary_input_size = 0;
                    std::vector<r1cs_constraint<FieldType>> constraints;
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
