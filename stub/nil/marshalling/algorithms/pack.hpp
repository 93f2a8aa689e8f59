// Stand-in: a value written out as bits, most or least significant first.
#pragma once
#include <array>
#include <cstdint>
#include <limits>
#include <type_traits>
#include <vector>
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/marshalling/field_type.hpp>
#include <nil/marshalling/status_type.hpp>
namespace nil {
    namespace marshalling {
        namespace detail {
            template<typename T, typename = void>
            struct bits_of_value {
                static boost::multiprecision::cpp_int get(const T &v) { return boost::multiprecision::cpp_int(v); }
            };
            template<typename T>
            struct bits_of_value<T, std::void_t<typename T::field_type>> {
                static boost::multiprecision::cpp_int get(const T &v) { return boost::multiprecision::cpp_int(v.data); }
            };
            // whole bytes
            template<typename T, typename = void>
            struct width_of_value {
                static const std::size_t value = (std::numeric_limits<T>::digits + 7) / 8 * 8;
            };
            template<typename T>
            struct width_of_value<T, std::void_t<typename T::field_type>> {
                static const std::size_t value = (T::modulus_bits + 7) / 8 * 8;
            };
            template<typename Endianness>
            struct packed {
                boost::multiprecision::cpp_int v;
                template<std::size_t N>
                operator std::array<bool, N>() const {
                    std::array<bool, N> r;
                    for (std::size_t i = 0; i < N; i++)
                        r[std::is_same<Endianness, endian::big_endian>::value ? N - 1 - i : i] = boost::multiprecision::bit_test(v, unsigned(i));
                    return r;
                }
                std::size_t bits = 0;
                operator std::vector<bool>() const {
                    std::vector<bool> r(bits);
                    for (std::size_t i = 0; i < bits; i++)
                        r[std::is_same<Endianness, endian::big_endian>::value ? bits - 1 - i : i] = boost::multiprecision::bit_test(v, unsigned(i));
                    return r;
                }
            };
        }    // namespace detail
        template<typename Endianness, typename T>
        detail::packed<Endianness> pack(const T &v, status_type &status) {
            status = status_type::success;
            return {detail::bits_of_value<T>::get(v), detail::width_of_value<T>::value};
        }
    }    // namespace marshalling
}    // namespace nil
