#pragma once

#include <cstddef>
#include <utility>
#include <vector>

namespace nil {
    namespace crypto3 {
        namespace math {
            template<typename FieldType>
            struct linear_variable {
                std::size_t index = 0;
                linear_variable(std::size_t i = 0) : index(i) {}
            };
            template<typename FieldType>
            struct linear_combination {
                std::vector<std::pair<linear_variable<FieldType>, typename FieldType::value_type>> terms;
            };
        }    // namespace math
    }        // namespace crypto3
}    // namespace nil
