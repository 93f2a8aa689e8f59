// Stand-in for the crypto3 prime fields: arithmetic modulo a prime on top of
// Boost.Multiprecision.  Values are canonical representatives in [0, modulus).
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <type_traits>

#include <boost/functional/hash.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/number.hpp>

#include <boost/multiprecision/cpp_int_modular.hpp>

namespace nil {
    namespace crypto3 {
        namespace multiprecision = boost::multiprecision;

        namespace algebra {
            namespace fields {
                namespace detail {

                    template<std::size_t Bits>
                    using uint_of = boost::multiprecision::number<
                        boost::multiprecision::cpp_int_backend<Bits, Bits, boost::multiprecision::unsigned_magnitude,
                                                               boost::multiprecision::unchecked, void>,
                        boost::multiprecision::et_off>;

                    template<typename Params>
                    class fp_element {
                    public:
                        typedef typename Params::field_type field_type;
                        typedef uint_of<Params::bits> integral_type;
                        typedef integral_type modular_type;
                        typedef integral_type data_type;
                        constexpr static std::size_t modulus_bits = Params::bits;

                        data_type data;

                    private:
                        typedef uint_of<2 * Params::bits + 8> wide_type;

                        static constexpr const integral_type &mod() { return Params::modulus(); }
                        static const wide_type &wide_mod() {
                            static const wide_type m(Params::modulus());
                            return m;
                        }

                    public:
                        static const integral_type &modulus_ref() { return Params::modulus(); }
                        inline static const integral_type &modulus = Params::modulus();

                        constexpr fp_element() : data(0u) {}
                        constexpr fp_element(const fp_element &) = default;
                        constexpr fp_element(fp_element &&) = default;
                        fp_element &operator=(const fp_element &) = default;
                        fp_element &operator=(fp_element &&) = default;

                        template<typename T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0>
                        constexpr fp_element(T v) : data(0u) {
                            if constexpr (std::is_signed<T>::value) {
                                if (v < 0) {
                                    integral_type m(static_cast<std::uint64_t>(-(v + 1)));
                                    m += 1u;
                                    if constexpr (Params::bits <= 64) {
                                        m %= mod();
                                    }
                                    data = m == 0 ? integral_type(m) : integral_type(mod() - m);
                                    return;
                                }
                            }
                            data = integral_type(static_cast<std::uint64_t>(v));
                            if constexpr (Params::bits <= 64) {
                                if (static_cast<std::uint64_t>(v) >= static_cast<std::uint64_t>(mod())) {
                                    data = integral_type(static_cast<std::uint64_t>(v) %
                                                         static_cast<std::uint64_t>(mod()));
                                }
                            }
                        }

                        template<typename Backend, boost::multiprecision::expression_template_option ET>
                        constexpr fp_element(const boost::multiprecision::number<Backend, ET> &v) : data(0u) {
                            typedef boost::multiprecision::number<Backend, ET> number_type;
                            if constexpr (std::is_same<number_type, integral_type>::value) {
                                data = v;
                                if (data >= mod()) {
                                    data %= mod();
                                }
                            } else if constexpr (std::numeric_limits<number_type>::is_bounded &&
                                                 !std::numeric_limits<number_type>::is_signed) {
                                constexpr std::size_t digits = std::numeric_limits<number_type>::digits;
                                uint_of<(digits > Params::bits ? digits : Params::bits) + 8> t(v);
                                t %= mod();
                                data = integral_type(t);
                            } else {
                                boost::multiprecision::cpp_int t(v);
                                boost::multiprecision::cpp_int m(mod());
                                t %= m;
                                if (t < 0) {
                                    t += m;
                                }
                                data = integral_type(t);
                            }
                        }

                        static fp_element zero() { return fp_element(); }
                        static fp_element one() { return fp_element(1u); }

                        bool is_zero() const { return data.is_zero(); }
                        bool is_one() const { return data == 1u; }

                        bool operator==(const fp_element &o) const { return data == o.data; }
                        bool operator!=(const fp_element &o) const { return data != o.data; }
                        bool operator<(const fp_element &o) const { return data < o.data; }
                        bool operator>(const fp_element &o) const { return data > o.data; }
                        bool operator<=(const fp_element &o) const { return data <= o.data; }
                        bool operator>=(const fp_element &o) const { return data >= o.data; }

                        fp_element &operator+=(const fp_element &o) {
                            uint_of<Params::bits + 8> t(data);
                            t += o.data;
                            if (t >= mod()) {
                                t -= mod();
                            }
                            data = integral_type(t);
                            return *this;
                        }
                        fp_element &operator-=(const fp_element &o) {
                            if (data >= o.data) {
                                data -= o.data;
                            } else {
                                integral_type t = mod() - o.data;
                                data += t;
                            }
                            return *this;
                        }
                        fp_element &operator*=(const fp_element &o) {
                            if (data.is_zero() || o.data == 1u) {
                                return *this;
                            }
                            if (o.data.is_zero() || data == 1u) {
                                return *this = o;
                            }
                            wide_type t(data);
                            t *= wide_type(o.data);
                            if (t >= wide_mod()) {
                                t %= wide_mod();
                            }
                            data = integral_type(t);
                            return *this;
                        }
                        fp_element &operator/=(const fp_element &o) { return *this *= o.inversed(); }

                        friend fp_element operator+(fp_element a, const fp_element &b) { return a += b; }
                        friend fp_element operator-(fp_element a, const fp_element &b) { return a -= b; }
                        friend fp_element operator*(fp_element a, const fp_element &b) { return a *= b; }
                        friend fp_element operator/(fp_element a, const fp_element &b) { return a /= b; }

                        fp_element operator-() const {
                            fp_element r;
                            r -= *this;
                            return r;
                        }
                        fp_element &operator++() { return *this += one(); }
                        fp_element operator++(int) {
                            fp_element t = *this;
                            ++*this;
                            return t;
                        }
                        fp_element &operator--() { return *this -= one(); }
                        fp_element operator--(int) {
                            fp_element t = *this;
                            --*this;
                            return t;
                        }

                        fp_element doubled() const { return *this + *this; }
                        fp_element squared() const { return *this * *this; }

                        fp_element inversed() const {
                            if (is_zero()) {
                                return *this;
                            }
                            using boost::multiprecision::cpp_int;
                            cpp_int a(data), m(mod()), x0 = 1, x1 = 0, b = m;
                            while (b != 0) {
                                cpp_int q = a / b;
                                cpp_int t = a - q * b;
                                a = b;
                                b = t;
                                t = x0 - q * x1;
                                x0 = x1;
                                x1 = t;
                            }
                            x0 %= m;
                            if (x0 < 0) {
                                x0 += m;
                            }
                            fp_element r;
                            r.data = integral_type(x0);
                            return r;
                        }

                        template<typename PowerType>
                        fp_element pow(const PowerType &power) const {
                            boost::multiprecision::cpp_int e(power);
                            fp_element result = one(), base = *this;
                            while (e > 0) {
                                if (boost::multiprecision::bit_test(e, 0)) {
                                    result *= base;
                                }
                                base *= base;
                                e >>= 1;
                            }
                            return result;
                        }

                        bool is_square() const {
                            if (is_zero()) {
                                return true;
                            }
                            return pow((integral_type(mod() - 1u)) >> 1).is_one();
                        }

                        // Tonelli-Shanks
                        fp_element sqrt() const {
                            if (is_zero()) {
                                return *this;
                            }
                            if (!is_square()) {
                                throw std::invalid_argument("square root of a non-residue");
                            }
                            integral_type q = mod() - 1u;
                            std::size_t s = 0;
                            while (!boost::multiprecision::bit_test(q, 0)) {
                                q >>= 1;
                                ++s;
                            }
                            fp_element z(2u);
                            while (z.is_square()) {
                                ++z;
                            }
                            std::size_t m = s;
                            fp_element c = z.pow(q), t = pow(q), r = pow(integral_type((q + 1u) >> 1));
                            while (!t.is_one()) {
                                std::size_t i = 0;
                                fp_element u = t;
                                while (!u.is_one()) {
                                    u = u.squared();
                                    ++i;
                                }
                                fp_element b = c;
                                for (std::size_t j = 0; j + i + 1 < m; ++j) {
                                    b = b.squared();
                                }
                                m = i;
                                c = b.squared();
                                t *= c;
                                r *= b;
                            }
                            return r;
                        }

                        friend std::ostream &operator<<(std::ostream &os, const fp_element &v) {
                            return os << v.data;
                        }
                    };

                    template<typename Params, typename PowerType>
                    fp_element<Params> power(const fp_element<Params> &v, const PowerType &e) {
                        return v.pow(e);
                    }

                    template<typename Params>
                    std::size_t hash_value(const fp_element<Params> &v) {
                        return boost::multiprecision::hash_value(v.data);
                    }

                    // Params: bits, text() -> the modulus as a literal
                    template<typename Derived, typename Params>
                    struct prime_field {
                        constexpr static std::size_t modulus_bits = Params::bits;
                        constexpr static std::size_t number_bits = Params::bits;
                        constexpr static std::size_t value_bits = Params::bits;
                        constexpr static std::size_t arity = 1;
                        typedef uint_of<Params::bits> integral_type;
                        typedef integral_type modular_type;
                        typedef uint_of<(2 * Params::bits + 63) / 64 * 64> extended_integral_type;

                        struct element_params {
                            typedef Derived field_type;
                            constexpr static std::size_t bits = Params::bits;
                            inline static constexpr integral_type modulus_value =
                                boost::multiprecision::literals::verif_detail::parse<Params::bits>(Params::text());
                            static constexpr const integral_type &modulus() { return modulus_value; }
                        };
                        typedef fp_element<element_params> value_type;
                        inline static const integral_type modulus = integral_type(Params::text());
                        inline static const integral_type group_order_minus_one_half =
                            (integral_type(Params::text()) - 1u) / 2u;
                    };
                }    // namespace detail
            }        // namespace fields
        }            // namespace algebra
    }                // namespace crypto3
}    // namespace nil

namespace std {
    template<typename Params>
    struct hash<nil::crypto3::algebra::fields::detail::fp_element<Params>> {
        std::size_t operator()(const nil::crypto3::algebra::fields::detail::fp_element<Params> &v) const {
            return boost::multiprecision::hash_value(v.data);
        }
    };
}    // namespace std
