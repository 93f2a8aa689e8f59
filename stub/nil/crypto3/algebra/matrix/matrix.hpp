#pragma once
#include <array>
#include <cstddef>
namespace nil {
    namespace crypto3 {
        namespace algebra {
            template<typename T, std::size_t N>
            struct vector : public std::array<T, N> {};
            template<typename T, std::size_t N, std::size_t M>
            struct matrix {
                std::array<std::array<T, M>, N> arrays;
                constexpr std::array<T, M> &operator[](std::size_t i) { return arrays[i]; }
                constexpr const std::array<T, M> &operator[](std::size_t i) const { return arrays[i]; }
            };
        }    // namespace algebra
    }        // namespace crypto3
}    // namespace nil
