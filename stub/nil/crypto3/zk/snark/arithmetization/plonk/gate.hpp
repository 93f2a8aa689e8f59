#pragma once

#include <initializer_list>
#include <vector>

#include <nil/crypto3/zk/snark/arithmetization/plonk/constraint.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType, typename ConstraintType = plonk_constraint<FieldType>>
                struct plonk_gate {
                    typedef ConstraintType constraint_type;

                    std::size_t selector_index;
                    std::vector<constraint_type> constraints;

                    plonk_gate(std::size_t s, const constraint_type &c) : selector_index(s), constraints(1, c) {}
                    plonk_gate(std::size_t s, const std::initializer_list<constraint_type> &c) :
                        selector_index(s), constraints(c) {}
                    plonk_gate(std::size_t s, const std::vector<constraint_type> &c) :
                        selector_index(s), constraints(c) {}

                    bool operator==(const plonk_gate &o) const {
                        return selector_index == o.selector_index && constraints == o.constraints;
                    }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
