// Stand-in for crypto3 random::algebraic_engine.  Field elements are drawn from a 64 bit generator seeded from
// whatever seed sequence or device is handed in, so that the simulator, which owns that device, owns every draw.
#pragma once

#include <cstdint>
#include <random>
#include <type_traits>

#include <boost/random/mersenne_twister.hpp>

#include <nil/crypto3/algebra/fields/detail_prime_field.hpp>

namespace nil {
    namespace crypto3 {
        namespace random {
            // The simulator may install a hook that replaces single draws (see /verif/sim).
            // Arguments: ordinal number of the draw in this process.  Result: true -> the draw is zero.
            inline bool (*zero_draw_hook)(std::uint64_t) = nullptr;
            inline std::uint64_t draws_made = 0;

            template<typename FieldType>
            class algebraic_engine {
            public:
                typedef typename FieldType::value_type result_type;

                explicit algebraic_engine(std::uint64_t seed_value = 0) : engine(seed_value) {}
                template<typename SeedSource,
                         typename std::enable_if<std::is_class<SeedSource>::value &&
                                                     !std::is_same<SeedSource, algebraic_engine>::value,
                                                 int>::type = 0>
                explicit algebraic_engine(SeedSource &source) {
                    seed(source);
                }

                void seed(std::uint64_t v = 0) { engine.seed(v); }
                template<typename SeedSource,
                         typename std::enable_if<std::is_class<SeedSource>::value, int>::type = 0>
                void seed(SeedSource &source) {
                    std::uint64_t a = static_cast<std::uint64_t>(source());
                    std::uint64_t b = static_cast<std::uint64_t>(source());
                    engine.seed((a << 32) ^ b);
                }

                result_type operator()() {
                    const std::uint64_t n = draws_made++;
                    if (zero_draw_hook != nullptr && zero_draw_hook(n)) {
                        return result_type::zero();
                    }
                    typedef typename FieldType::integral_type integral_type;
                    boost::multiprecision::cpp_int v = 0;
                    for (std::size_t bits = 0; bits < FieldType::modulus_bits + 64; bits += 64) {
                        v <<= 64;
                        v |= engine();
                    }
                    v %= boost::multiprecision::cpp_int(FieldType::modulus);
                    return result_type(integral_type(v));
                }

                static result_type min() { return result_type::zero(); }
                static result_type max() { return -result_type::one(); }

            private:
                boost::random::mt19937_64 engine;
            };
        }    // namespace random
    }        // namespace crypto3
}    // namespace nil
