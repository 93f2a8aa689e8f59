#pragma once

#include <cstddef>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType>
                struct plonk_table_description {
                    std::size_t witness_columns;
                    std::size_t public_input_columns;
                    std::size_t constant_columns;
                    std::size_t selector_columns;

                    std::size_t usable_rows_amount;
                    std::size_t rows_amount;

                    plonk_table_description(std::size_t w, std::size_t pi, std::size_t c, std::size_t s) :
                        witness_columns(w), public_input_columns(pi), constant_columns(c), selector_columns(s),
                        usable_rows_amount(0), rows_amount(0) {}
                    plonk_table_description(std::size_t w, std::size_t pi, std::size_t c, std::size_t s,
                                            std::size_t usable, std::size_t rows) :
                        witness_columns(w),
                        public_input_columns(pi), constant_columns(c), selector_columns(s), usable_rows_amount(usable),
                        rows_amount(rows) {}

                    std::size_t table_width() const {
                        return witness_columns + public_input_columns + constant_columns + selector_columns;
                    }
                    std::size_t global_index(std::size_t i) const { return i; }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
