#pragma once

#include <vector>

#include <nil/crypto3/zk/snark/arithmetization/plonk/constraint.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType>
                struct plonk_lookup_table {
                    typedef plonk_constraint<FieldType> constraint_type;

                    std::size_t tag_index = 0;
                    std::size_t columns_number = 0;
                    std::vector<std::vector<constraint_type>> lookup_options;

                    plonk_lookup_table() = default;
                    plonk_lookup_table(std::size_t columns, std::size_t tag) :
                        tag_index(tag), columns_number(columns) {}

                    void append_option(const std::vector<constraint_type> &option) { lookup_options.push_back(option); }

                    bool operator==(const plonk_lookup_table &o) const {
                        return tag_index == o.tag_index && columns_number == o.columns_number &&
                               lookup_options == o.lookup_options;
                    }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
