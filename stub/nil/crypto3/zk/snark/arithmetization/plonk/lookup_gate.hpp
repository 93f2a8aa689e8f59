#pragma once

#include <initializer_list>
#include <vector>

#include <nil/crypto3/zk/snark/arithmetization/plonk/lookup_constraint.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType, typename LookupConstraintType = plonk_lookup_constraint<FieldType>>
                struct plonk_lookup_gate {
                    typedef LookupConstraintType constraint_type;

                    std::size_t tag_index;
                    std::vector<constraint_type> constraints;

                    plonk_lookup_gate(std::size_t s, const constraint_type &c) : tag_index(s), constraints(1, c) {}
                    plonk_lookup_gate(std::size_t s, const std::initializer_list<constraint_type> &c) :
                        tag_index(s), constraints(c) {}
                    plonk_lookup_gate(std::size_t s, const std::vector<constraint_type> &c) :
                        tag_index(s), constraints(c) {}

                    bool operator==(const plonk_lookup_gate &o) const {
                        return tag_index == o.tag_index && constraints == o.constraints;
                    }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
