// Stand-in for the fixed precision unsigned backend that crypto3 adds to Boost.Multiprecision.
#pragma once

#include <boost/multiprecision/cpp_int.hpp>

namespace boost {
    namespace multiprecision {
        namespace backends {
            template<unsigned Bits>
            using cpp_int_modular_backend =
                cpp_int_backend<Bits, Bits, unsigned_magnitude, unchecked, void>;
        }
        using backends::cpp_int_modular_backend;

        // Arithmetic modulo a number known at compile time.  The library uses it for 256-bit machine words only, and
        // arithmetic modulo 2^256 is what a 256-bit unsigned integer does.
        namespace backends {
            template<typename Backend>
            struct modular_params {
                Backend modulus;
                constexpr modular_params(const Backend &m) : modulus(m) {
                }
            };
            template<typename Backend, const modular_params<Backend> &Params>
            struct modular_params_ct { };
            template<typename Backend, typename Params>
            struct modular_adaptor_of;
            template<const modular_params<cpp_int_modular_backend<257>> &Params>
            struct modular_adaptor_of<cpp_int_modular_backend<257>,
                                      modular_params_ct<cpp_int_modular_backend<257>, Params>> {
                static_assert(number<cpp_int_modular_backend<257>>(Params.modulus) ==
                                  (number<cpp_int_modular_backend<257>>(1u) << 256),
                              "the stand-in knows the modulus 2^256 only");
                typedef cpp_int_modular_backend<256> type;
            };
            template<typename Backend, typename Params>
            using modular_adaptor = typename modular_adaptor_of<Backend, Params>::type;
        }    // namespace backends

        namespace literals {
            namespace verif_detail {
                template<unsigned Bits>
                constexpr number<backends::cpp_int_modular_backend<Bits>, et_off> parse(const char *s) {
                    number<backends::cpp_int_modular_backend<Bits>, et_off> r = 0u;
                    unsigned base = 10;
                    if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
                        base = 16;
                        s += 2;
                    }
                    for (; *s; ++s) {
                        unsigned d = *s >= 'a' ? *s - 'a' + 10 : *s >= 'A' ? *s - 'A' + 10 : *s - '0';
                        r *= base;
                        r += d;
                    }
                    return r;
                }
            }    // namespace verif_detail
// sizes come in whole limbs: some sources write 254 bits and say 253
#define VERIF_MODULAR_LITERAL(N) \
    constexpr number<backends::cpp_int_modular_backend<(N > 192 && N < 256 ? 256 : N)>, et_off> operator"" _cppui_modular##N(const char *s) { \
        return verif_detail::parse<(N > 192 && N < 256 ? 256 : N)>(s); \
    }
            VERIF_MODULAR_LITERAL(64)
            VERIF_MODULAR_LITERAL(253)
            VERIF_MODULAR_LITERAL(254)
            VERIF_MODULAR_LITERAL(255)
            VERIF_MODULAR_LITERAL(256)
            VERIF_MODULAR_LITERAL(257)
            VERIF_MODULAR_LITERAL(512)
#undef VERIF_MODULAR_LITERAL
        }    // namespace literals
        using literals::operator"" _cppui_modular64;
        using literals::operator"" _cppui_modular253;
        using literals::operator"" _cppui_modular254;
        using literals::operator"" _cppui_modular255;
        using literals::operator"" _cppui_modular256;
        using literals::operator"" _cppui_modular257;
        using literals::operator"" _cppui_modular512;
    }    // namespace multiprecision
}    // namespace boost
namespace nil {
    namespace blueprint {
        using namespace boost::multiprecision::literals;
    }
}    // namespace nil
