// The prime fields used by the code under test.  The moduli are the public ones.
#pragma once

#include <nil/crypto3/algebra/fields/detail_prime_field.hpp>

namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace fields {
#define VERIF_FIELD(NAME, BITS, TEXT)                                        \
    namespace detail {                                                       \
        struct NAME##_params {                                               \
            constexpr static std::size_t bits = BITS;                        \
            constexpr static const char *text() { return TEXT; }             \
        };                                                                   \
    }                                                                        \
    struct NAME : public detail::prime_field<NAME, detail::NAME##_params> {  \
        typedef NAME policy_type;                                            \
    };

                VERIF_FIELD(pallas_base_field, 255,
                            "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
                VERIF_FIELD(pallas_scalar_field, 255,
                            "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")
                VERIF_FIELD(goldilocks64_base_field, 64, "0xFFFFFFFF00000001")
                VERIF_FIELD(curve25519_base_field, 255,
                            "0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")
                VERIF_FIELD(curve25519_scalar_field, 253,
                            "0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
                VERIF_FIELD(bls12_base_field_381, 381,
                            "0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffff"
                            "ffffaaab")
                VERIF_FIELD(bls12_scalar_field_381, 255,
                            "0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
                VERIF_FIELD(alt_bn128_base_field_254, 254,
                            "0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47")
                VERIF_FIELD(alt_bn128_scalar_field_254, 254,
                            "0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001")
#undef VERIF_FIELD

                typedef pallas_base_field pallas_fq;
                typedef pallas_scalar_field pallas_fr;
                typedef pallas_scalar_field vesta_base_field;
                typedef pallas_base_field vesta_scalar_field;
                typedef goldilocks64_base_field goldilocks64;
                template<std::size_t Version>
                using bls12_base_field = bls12_base_field_381;
                template<std::size_t Version>
                using bls12_scalar_field = bls12_scalar_field_381;
                template<std::size_t Version>
                using bls12_fq = bls12_base_field_381;
                template<std::size_t Version>
                using bls12_fr = bls12_scalar_field_381;
                template<std::size_t Version>
                using alt_bn128_base_field = alt_bn128_base_field_254;
                template<std::size_t Version>
                using alt_bn128_scalar_field = alt_bn128_scalar_field_254;
            }    // namespace fields

            namespace curves {
                namespace coordinates {
                    struct affine {};
                    struct projective {};
                    struct jacobian_with_a4_0 {};
                    struct extended_with_a_minus_1 {};
                }    // namespace coordinates
                namespace forms {
                    struct short_weierstrass {};
                    struct twisted_edwards {};
                    struct montgomery {};
                }    // namespace forms

                namespace detail {
                    // Affine short Weierstrass y^2 = x^3 + b
                    template<typename Field, std::uint64_t B>
                    struct sw_point {
                        typedef Field field_type;
                        typedef typename Field::value_type fv;
                        fv X, Y;
                        bool inf = true;
                        sw_point() : X(0), Y(1) {}
                        sw_point(const fv &x, const fv &y) : X(x), Y(y), inf(false) {}
                        static sw_point zero() { return sw_point(); }
                        static sw_point one() {
                            fv x(0);
                            for (;;) {
                                x += 1;
                                fv r = x * x * x + fv(B);
                                if (r.is_square()) {
                                    return sw_point(x, r.sqrt());
                                }
                            }
                        }
                        bool is_zero() const { return inf; }
                        sw_point to_affine() const { return *this; }
                        bool operator==(const sw_point &o) const {
                            return inf == o.inf && (inf || (X == o.X && Y == o.Y));
                        }
                        bool operator!=(const sw_point &o) const { return !(*this == o); }
                        sw_point operator-() const { return inf ? *this : sw_point(X, -Y); }
                        friend sw_point operator+(const sw_point &a, const sw_point &b) {
                            if (a.inf) return b;
                            if (b.inf) return a;
                            fv l;
                            if (a.X == b.X) {
                                if (a.Y != b.Y || a.Y.is_zero()) return sw_point();
                                l = a.X.squared() * 3 / (a.Y.doubled());
                            } else {
                                l = (b.Y - a.Y) / (b.X - a.X);
                            }
                            fv x = l.squared() - a.X - b.X;
                            return sw_point(x, l * (a.X - x) - a.Y);
                        }
                        friend sw_point operator-(const sw_point &a, const sw_point &b) { return a + (-b); }
                        template<typename S>
                        friend sw_point operator*(const S &s, const sw_point &p) { return p.mul(s); }
                        template<typename S>
                        friend sw_point operator*(const sw_point &p, const S &s) { return p.mul(s); }
                        template<typename S>
                        sw_point mul(const S &s) const {
                            boost::multiprecision::cpp_int e;
                            if constexpr (std::is_integral<S>::value) {
                                e = s;
                            } else {
                                e = boost::multiprecision::cpp_int(s.data);
                            }
                            sw_point r, b = *this;
                            while (e > 0) {
                                if (boost::multiprecision::bit_test(e, 0)) r = r + b;
                                b = b + b;
                                e >>= 1;
                            }
                            return r;
                        }
                    };
                }    // namespace detail

                struct pallas {
                    typedef fields::pallas_base_field base_field_type;
                    typedef fields::pallas_scalar_field scalar_field_type;
                    template<typename Coordinates = coordinates::affine, typename Form = forms::short_weierstrass>
                    struct g1_type {
                        typedef base_field_type field_type;
                        typedef detail::sw_point<base_field_type, 5> value_type;
                    };
                };
                struct vesta {
                    typedef fields::vesta_base_field base_field_type;
                    typedef fields::vesta_scalar_field scalar_field_type;
                    template<typename Coordinates = coordinates::affine, typename Form = forms::short_weierstrass>
                    struct g1_type {
                        typedef base_field_type field_type;
                        typedef detail::sw_point<base_field_type, 5> value_type;
                    };
                };
                struct ed25519 {
                    typedef fields::curve25519_base_field base_field_type;
                    typedef fields::curve25519_scalar_field scalar_field_type;
                    template<typename Coordinates = coordinates::affine, typename Form = forms::twisted_edwards>
                    struct g1_type {
                        typedef base_field_type field_type;
                        // -x^2 + y^2 = 1 + d x^2 y^2
                        struct value_type {
                            typedef typename base_field_type::value_type coordinate;
                            coordinate X = coordinate(0), Y = coordinate(1);
                            value_type() {}
                            value_type(const coordinate &x, const coordinate &y) : X(x), Y(y) {}
                            static value_type zero() { return value_type(); }
                            static coordinate d() { return -coordinate(121665) * coordinate(121666).inversed(); }
                            bool operator==(const value_type &o) const { return X == o.X && Y == o.Y; }
                            bool operator!=(const value_type &o) const { return !(*this == o); }
                            value_type operator+(const value_type &o) const {
                                coordinate one(1), t = d() * X * o.X * Y * o.Y;
                                return value_type((X * o.Y + Y * o.X) * (one + t).inversed(), (Y * o.Y + X * o.X) * (one - t).inversed());
                            }
                        };
                    };
                };
                template<std::size_t Version = 381>
                struct bls12 {
                    typedef fields::bls12_base_field_381 base_field_type;
                    typedef fields::bls12_scalar_field_381 scalar_field_type;
                    template<typename Coordinates = coordinates::affine, typename Form = forms::short_weierstrass>
                    struct g1_type {
                        typedef base_field_type field_type;
                        typedef detail::sw_point<base_field_type, 4> value_type;
                    };
                };
                typedef bls12<381> bls12_381;
                template<std::size_t Version = 254>
                struct alt_bn128 {
                    typedef fields::alt_bn128_base_field_254 base_field_type;
                    typedef fields::alt_bn128_scalar_field_254 scalar_field_type;
                };
                typedef alt_bn128<254> alt_bn128_254;
            }    // namespace curves
        }        // namespace algebra
    }            // namespace crypto3
}    // namespace nil
