// Components of the library behind one interface: what inputs they accept, what they must compute, and how to place
// them.  Shared by the harnesses that place many components on one circuit.
#ifndef VERIF_COMPONENT_KIT_HPP
#define VERIF_COMPONENT_KIT_HPP

#include "plonk_kit.hpp"

#include <nil/blueprint/basic_non_native_policy.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>
#ifdef VERIF_ALL_COMPONENTS
#include <nil/blueprint/components/algebra/fields/plonk/logic_and_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_or_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/linear_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/quadratic_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/range_check.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_unchecked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/logic_ops.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_lin_inter.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f1_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/gate_component.hpp>
#endif

namespace comp {
    using namespace kit;
    namespace bc = nil::blueprint::components;
    typedef nil::blueprint::basic_non_native_policy<field> policy;
    typedef std::vector<value> values;
    typedef std::vector<var> vars;

    typedef bc::multiplication<arith, field, policy> mul_t;
    typedef bc::addition<arith, field, policy> add_t;
    typedef bc::subtraction<arith, field, policy> sub_t;
    typedef bc::division<arith, field, policy> div_t;
    typedef bc::division_or_zero<arith, field> divz_t;
    typedef bc::flexible_swap<arith, field> swap_t;
    typedef bc::mul_by_constant<arith, field> mulc_t;

    template<typename T>
    vars flatten(T r) {
        vars x;
        for (auto v : r.all_vars())
            x.push_back(v.get());
        return x;
    }

    // a component on its columns with its inputs
    struct placement {
        virtual ~placement() {}
        virtual std::size_t rows() const = 0;
        virtual vars assign(table_t &t, std::uint32_t row) const = 0;
        virtual vars circuit(circuit_t &bp, table_t &t, std::uint32_t row) const = 0;
        // the results without filling the component in; false if the component has no such form
        virtual bool peek(table_t &t, std::uint32_t row, vars &out) const = 0;
    };

    template<typename C>
    struct has_empty {
        template<typename T>
        static auto test(int) -> decltype(generate_empty_assignments(std::declval<const T &>(), std::declval<table_t &>(),
                                                                     std::declval<const typename T::input_type &>(), std::uint32_t(0)),
                                          std::true_type());
        template<typename>
        static std::false_type test(...);
        static const bool value = decltype(test<C>(0))::value;
    };

    template<typename C>
    struct placement_of : placement {
        C c;
        typename C::input_type in;
        placement_of(C c_, typename C::input_type in_) : c(std::move(c_)), in(std::move(in_)) {}
        std::size_t rows() const override { return c.rows_amount; }
        vars assign(table_t &t, std::uint32_t row) const override { return flatten(generate_assignments(c, t, in, row)); }
        vars circuit(circuit_t &bp, table_t &t, std::uint32_t row) const override { return flatten(generate_circuit(c, bp, t, in, row)); }
        bool peek(table_t &t, std::uint32_t row, vars &out) const override {
            if constexpr (has_empty<C>::value) {
                out = flatten(generate_empty_assignments(c, t, in, row));
                return true;
            } else
                return false;
        }
    };
    typedef std::shared_ptr<placement> placed;
    template<typename C>
    placed bind(C c, typename C::input_type in) {
        return std::make_shared<placement_of<C>>(std::move(c), std::move(in));
    }

    // values that only make sense together, such as the coordinates of a point
    struct bundle {
        const char *tag;
        std::size_t size;
    };

    struct kind {
        std::string name;
        std::size_t inputs = 0;
        std::vector<bundle> in, out;                            // absent: inputs and results stand alone
        std::vector<std::size_t> widths;                        // witness column counts it can be built on
        std::function<value(std::size_t, Rng &)> want;          // a plausible value of input j
        std::function<bool(const values &)> fits;               // may the component be asked this?
        std::function<bool(const values &)> refuses;            // must it reject this? (absent: promises nothing)
        std::function<values(const values &)> result;           // what it must answer
        std::function<placed(const std::vector<std::size_t> &, const vars &)> make;
        std::vector<std::string> tables;                        // lookup tables it needs
        std::function<values(Rng &)> want_all;                  // plausible values of all inputs; replaces want
        std::function<bool(const values &, const values &)> accepts;    // is this answer right? (absent: only result is)
        bool open = false;                                      // the library leaves a range open that a prover could use
        bool constant = true;                                   // may use the constant column
        bool circuit_first = false;                             // the assignment reads what the circuit pass stores
    };

    inline std::vector<std::size_t> upto(std::size_t lo, std::size_t hi, std::size_t step = 1) {
        std::vector<std::size_t> r;
        for (std::size_t i = lo; i <= hi; i += step)
            r.push_back(i);
        return r;
    }
    inline integral power_of_two(unsigned bits) { return integral(1) << bits; }
    inline bool below_bits(const value &v, unsigned bits) { return integral(v.data) < power_of_two(bits); }
    inline value bits_value(Rng &g, unsigned bits) {
        integral r = 0;
        switch (g.below(5)) {
            case 0:
                return value(g.below(2));
            case 1:
                return value(power_of_two(bits) - 1 - g.below(2));
            case 2:
                return value(power_of_two(unsigned(g.below(bits))));
            default:
                for (unsigned i = 0; i < bits; i++)
                    if (g.chance(1, 2))
                        r |= power_of_two(i);
                return value(r);
        }
    }
    inline bool is_bit(const value &v) { return v == value(0) || v == value(1); }
    inline value any_value(std::size_t, Rng &g) { return make_value(g.next() >> 20); }
    inline bool always(const values &) { return true; }

    const std::vector<std::size_t> no_columns = {};
    std::vector<std::size_t> first_column = {0};    // the constant column the next component gets

    // kinds 0..5 can be batched
    const unsigned batchable_kinds = 6;
    enum : unsigned { MUL, ADD, SUB, DIV, DIVZ, SWAP, MULC, SMALL_KINDS };

    inline kind small_kind(unsigned which, u64 param) {
        kind k;
        k.want = any_value;
        k.fits = always;
        k.inputs = 2;
        typedef const std::vector<std::size_t> &cols;
        switch (which) {
            case MUL:
                k.name = "multiplication";
                k.widths = {3};
                k.constant = false;
                k.result = [](const values &v) { return values {v[0] * v[1]}; };
                k.make = [](cols w, const vars &in) { return bind(mul_t(w, no_columns, no_columns), {in[0], in[1]}); };
                break;
            case ADD:
                k.name = "addition";
                k.widths = {3};
                k.constant = false;
                k.result = [](const values &v) { return values {v[0] + v[1]}; };
                k.make = [](cols w, const vars &in) { return bind(add_t(w, no_columns, no_columns), {in[0], in[1]}); };
                break;
            case SUB:
                k.name = "subtraction";
                k.widths = {3};
                k.result = [](const values &v) { return values {v[0] - v[1]}; };
                k.make = [](cols w, const vars &in) { return bind(sub_t(w, no_columns, no_columns), {in[0], in[1]}); };
                break;
            case DIV:
                k.name = "division";
                k.widths = {4};
                k.fits = [](const values &v) { return !v[1].is_zero(); };
                k.result = [](const values &v) { return values {v[0] * v[1].inversed()}; };
                k.make = [](cols w, const vars &in) { return bind(div_t(w, no_columns, no_columns), {in[0], in[1]}); };
                break;
            case DIVZ:
                k.name = "division_or_zero";
                k.widths = {5};
                k.result = [](const values &v) { return values {v[1].is_zero() ? value::zero() : v[0] * v[1].inversed()}; };
                k.make = [](cols w, const vars &in) { return bind(divz_t(w, no_columns, no_columns), {in[0], in[1]}); };
                break;
            case SWAP:
                k.name = "flexible_swap";
                k.widths = {5};
                k.inputs = 3;
                k.want = [](std::size_t j, Rng &g) { return j ? any_value(j, g) : value(g.below(2)); };
                k.fits = [](const values &v) { return is_bit(v[0]); };
                k.result = [](const values &v) { return v[0].is_zero() ? values {v[1], v[2]} : values {v[2], v[1]}; };
                k.make = [](cols w, const vars &in) {
                    typename swap_t::input_type i;
                    i.inp = {in[0], in[1], in[2]};
                    return bind(swap_t(w, no_columns, no_columns), i);
                };
                break;
            default: {
                value c = make_value(param % 20 + 900);
                k.name = "mul_by_constant";
                k.widths = {2};
                k.inputs = 1;
                k.result = [c](const values &v) { return values {v[0] * c}; };
                k.make = [c](cols w, const vars &in) { return bind(mulc_t(w, first_column, no_columns, c), {in[0]}); };
            }
        }
        return k;
    }

#ifdef VERIF_ALL_COMPONENTS
    enum : unsigned {
        AND_FLAG = SMALL_KINDS,
        OR_FLAG,
        LINEAR,
        QUADRATIC,
        RANGE_CHECK,
        COMPARE_FLAG,
        COMPARE_CHECKED,
        COMPARE_UNCHECKED,
        DIV_REM,
        BITS_OF,
        FROM_BITS,
        SHIFT,
        EQUAL,
        LOGIC,
        LOOKUP_LOGIC,
        ADDITIONS,
        MULTIPLICATIONS,
        CONSTANT_POW,
        POW_FACTOR,
        ARRAY_SWAP,
        LIN_INTER,
        F1_LOOP,
        F3_LOOP,
        GATE,
        ALL_KINDS
    };

    template<typename C>
    placed logic_of(const std::vector<std::size_t> &w, const vars &in) {
        typename C::input_type i;
        for (std::size_t j = 0; j < in.size(); j++)
            i.input[j] = in[j];
        return bind(C(w, first_column, no_columns), i);
    }

    inline bool compare(bc::comparison_mode m, const value &a, const value &b) {
        integral x = integral(a.data), y = integral(b.data);
        switch (m) {
            case bc::LESS_THAN:
                return x < y;
            case bc::LESS_EQUAL:
                return x <= y;
            case bc::GREATER_THAN:
                return x > y;
            default:
                return x >= y;
        }
    }

    // max_width: columns of the table
    inline kind any_kind(unsigned which, u64 param, std::size_t max_width) {
        if (which < SMALL_KINDS)
            return small_kind(which, param);
        kind k;
        k.want = any_value;
        k.fits = always;
        k.inputs = 2;
        typedef const std::vector<std::size_t> &cols;
        Rng p(param * 977 + which);
        unsigned bits;
        switch (p.below(5)) {
            case 0:
                bits = unsigned(p.range(1, 5));
                break;
            case 1:
                bits = 64;
                break;
            case 2:
                bits = unsigned(p.range(120, 250));
                break;
            default:
                bits = unsigned(p.range(1, 64));
        }
        bc::comparison_mode mode = bc::comparison_mode(p.range(int(bc::LESS_THAN), int(bc::GREATER_EQUAL)));
        u64 q = p.next() >> 8;
        auto in_bits = [bits](std::size_t, Rng &g) { return bits_value(g, bits); };
        auto binary = [](std::size_t, Rng &g) { return value(g.below(2)); };
        auto all_bits = [](const values &v) {
            for (auto &x : v)
                if (!is_bit(x))
                    return false;
            return true;
        };
        switch (which) {
            case AND_FLAG:
                k.name = "logic_and_flag";
                k.widths = upto(2, 5);
                k.want = [](std::size_t j, Rng &g) { return g.chance(1, 3) ? value(0) : any_value(j, g); };
                k.result = [](const values &v) { return values {value(v[0].is_zero() || v[1].is_zero() ? 0 : 1)}; };
                k.make = [](cols w, const vars &in) {
                    return bind(bc::logic_and_flag<arith>(w, first_column, no_columns), {in[0], in[1]});
                };
                break;
            case OR_FLAG:
                k.name = "logic_or_flag";
                k.widths = upto(2, 6);
                k.want = [](std::size_t j, Rng &g) { return g.chance(1, 2) ? value(0) : any_value(j, g); };
                k.result = [](const values &v) { return values {value(v[0].is_zero() && v[1].is_zero() ? 0 : 1)}; };
                k.make = [](cols w, const vars &in) {
                    return bind(bc::logic_or_flag<arith>(w, first_column, no_columns), {in[0], in[1]});
                };
                break;
            case LINEAR:
                k.name = "linear_inter_coefs";
                k.widths = {7};
                k.inputs = 4;
                k.fits = [](const values &v) { return v[0] != v[2]; };
                k.result = [](const values &v) {
                    value d = (v[2] - v[0]).inversed();
                    return values {(v[2] * v[1] - v[0] * v[3]) * d, (v[3] - v[1]) * d};
                };
                k.make = [](cols w, const vars &in) {
                    return bind(bc::linear_inter_coefs<arith, field>(w, first_column, no_columns), {in[0], in[1], in[2], in[3]});
                };
                break;
            case QUADRATIC:
                k.name = "quadratic_inter_coefs";
                k.widths = {10};
                k.inputs = 6;
                k.fits = [](const values &v) { return v[0] != v[2] && v[0] != v[4] && v[2] != v[4]; };
                // coefficients of the parabola through the three points, by Lagrange
                k.result = [](const values &v) {
                    values r(3, value::zero());
                    for (int i = 0; i < 3; i++) {
                        const value &xi = v[2 * i], &xj = v[2 * ((i + 1) % 3)], &xk = v[2 * ((i + 2) % 3)];
                        value f = v[2 * i + 1] * ((xi - xj) * (xi - xk)).inversed();
                        r[0] += f * xj * xk;
                        r[1] -= f * (xj + xk);
                        r[2] += f;
                    }
                    return r;
                };
                k.make = [](cols w, const vars &in) {
                    return bind(bc::quadratic_inter_coefs<arith, field>(w, first_column, no_columns),
                                {in[0], in[1], in[2], in[3], in[4], in[5]});
                };
                break;
            case RANGE_CHECK:
                k.name = "range_check(" + std::to_string(bits) + ")";
                k.widths = upto(2, std::max<std::size_t>(2, bits / 2 + 1));
                k.inputs = 1;
                k.want = in_bits;
                k.fits = [bits](const values &v) { return below_bits(v[0], bits); };
                k.refuses = [bits](const values &v) { return !below_bits(v[0], bits); };
                k.result = [](const values &) { return values {}; };
                k.make = [bits](cols w, const vars &in) {
                    return bind(bc::range_check<arith>(w, first_column, no_columns, bits), {in[0]});
                };
                break;
            case COMPARE_FLAG:
                k.name = "comparison_flag(" + std::to_string(bits) + "," + std::to_string(int(mode)) + ")";
                k.widths = upto(3, 15);
                k.want = in_bits;
                k.fits = [bits](const values &v) { return below_bits(v[0], bits) && below_bits(v[1], bits); };
                k.result = [mode](const values &v) { return values {value(compare(mode, v[0], v[1]) ? 1 : 0)}; };
                k.make = [bits, mode](cols w, const vars &in) {
                    return bind(bc::comparison_flag<arith>(w, first_column, no_columns, bits, mode), {in[0], in[1]});
                };
                break;
            case COMPARE_CHECKED:
                k.name = "comparison_checked(" + std::to_string(bits) + "," + std::to_string(int(mode)) + ")";
                k.widths = upto(3, std::max<std::size_t>(3, (bits + 1) / 2));
                k.want_all = [bits](Rng &g) {
                    values v {bits_value(g, bits), bits_value(g, bits)};
                    if (g.chance(1, 4))
                        v[0] = make_value(g.next() >> 20);
                    if (g.chance(1, 3))
                        v[1] = v[0] + value(g.below(4));
                    if (g.chance(1, 2))
                        std::swap(v[0], v[1]);
                    return v;
                };
                k.fits = [bits, mode](const values &v) {
                    return below_bits(v[0], bits) && below_bits(v[1], bits) && compare(mode, v[0], v[1]);
                };
                // the ranges are only enforced for the smaller operand, in steps of two bits
                k.refuses = [bits, mode](const values &v) {
                    return !compare(mode, v[0], v[1]) || !(below_bits(v[0], bits + bits % 2) || below_bits(v[1], bits + bits % 2));
                };
                k.result = [](const values &) { return values {}; };
                k.make = [bits, mode](cols w, const vars &in) {
                    return bind(bc::comparison_checked<arith>(w, first_column, no_columns, bits, mode), {in[0], in[1]});
                };
                break;
            case COMPARE_UNCHECKED:
                k.name = "comparison_unchecked(" + std::to_string(bits) + "," + std::to_string(int(mode)) + ")";
                k.widths = upto(3, 4);
                k.want = in_bits;
                k.fits = [bits, mode](const values &v) {
                    return below_bits(v[0], bits) && below_bits(v[1], bits) && compare(mode, v[0], v[1]);
                };
                k.result = [](const values &) { return values {}; };
                k.make = [bits, mode](cols w, const vars &in) {
                    return bind(bc::comparison_unchecked<arith>(w, first_column, no_columns, bits, mode), {in[0], in[1]});
                };
                break;
            case DIV_REM: {
                bool check = q & 1;
                unsigned b = std::min(bits, 120u);
                k.name = "division_remainder(" + std::to_string(b) + "," + std::to_string(check) + ")";
                k.widths = upto(3, 5);
                k.want = [b](std::size_t, Rng &g) { return bits_value(g, b); };
                k.fits = [b](const values &v) { return below_bits(v[0], b) && below_bits(v[1], b) && !v[1].is_zero(); };
                k.result = [](const values &v) {
                    integral x = integral(v[0].data), y = integral(v[1].data);
                    return values {value(integral(x / y)), value(integral(x % y))};
                };
                k.make = [b, check](cols w, const vars &in) {
                    return bind(bc::division_remainder<arith>(w, first_column, no_columns, b, check), {in[0], in[1]});
                };
                break;
            }
            case BITS_OF: {
                unsigned b = std::min(bits, 20u);
                bc::bit_composition_mode m = q & 1 ? bc::bit_composition_mode::MSB : bc::bit_composition_mode::LSB;
                k.name = "bit_decomposition(" + std::to_string(b) + (q & 1 ? ",MSB)" : ",LSB)");
                k.widths = upto(3, std::max<std::size_t>(3, b / 3 + 1));
                k.inputs = 1;
                k.want = [b](std::size_t, Rng &g) { return bits_value(g, b); };
                k.fits = [b](const values &v) { return below_bits(v[0], b); };
                k.result = [b, q](const values &v) {
                    values r;
                    for (unsigned i = 0; i < b; i++)
                        r.push_back(value(boost::multiprecision::bit_test(v[0].data, q & 1 ? b - 1 - i : i) ? 1 : 0));
                    return r;
                };
                k.make = [b, m](cols w, const vars &in) {
                    return bind(bc::bit_decomposition<arith>(w, first_column, no_columns, b, m), {in[0]});
                };
                break;
            }
            case FROM_BITS: {
                unsigned b = std::min(bits, 20u);
                bool check = q & 2;
                bc::bit_composition_mode m = q & 1 ? bc::bit_composition_mode::MSB : bc::bit_composition_mode::LSB;
                k.name = "bit_composition(" + std::to_string(b) + (q & 1 ? ",MSB," : ",LSB,") + std::to_string(check) + ")";
                k.widths = upto(3, std::max<std::size_t>(3, b / 3 + 1));
                k.inputs = b;
                k.want = binary;
                k.fits = all_bits;
                k.result = [b, q](const values &v) {
                    value r = value::zero();
                    for (unsigned i = 0; i < b; i++)
                        r = r + r + v[q & 1 ? i : b - 1 - i];
                    return values {r};
                };
                k.make = [b, m, check](cols w, const vars &in) {
                    return bind(bc::bit_composition<arith>(w, first_column, no_columns, b, check, m), {in});
                };
                break;
            }
            case SHIFT: {
                unsigned b = std::min(bits, 40u);
                if (b < 2)
                    b = 2;
                unsigned shift = unsigned(1 + q / 2 % (b - 1));
                bc::bit_shift_mode m = q & 1 ? bc::bit_shift_mode::LEFT : bc::bit_shift_mode::RIGHT;
                k.name = "bit_shift_constant(" + std::to_string(b) + "," + std::to_string(shift) + (q & 1 ? ",LEFT)" : ",RIGHT)");
                std::size_t top = std::max<std::size_t>(3, b / 3 + 1);
                std::size_t rest = b - shift;
                k.widths = upto(3, std::min(top, std::max<std::size_t>(3, rest / 3 + 1)));
                k.inputs = 1;
                k.want = [b](std::size_t, Rng &g) { return bits_value(g, b); };
                k.fits = [b](const values &v) { return below_bits(v[0], b); };
                k.result = [b, shift, q](const values &v) {
                    integral x = integral(v[0].data);
                    return values {value(q & 1 ? integral((x << shift) % power_of_two(b)) : integral(x >> shift))};
                };
                k.make = [b, shift, m](cols w, const vars &in) {
                    return bind(bc::bit_shift_constant<arith>(w, first_column, no_columns, b, shift, m), {in[0]});
                };
                break;
            }
            case EQUAL: {
                bool inequality = q & 1;
                k.name = std::string("equality_flag(") + (inequality ? "inequality)" : "equality)");
                k.widths = {4};
                k.want = [](std::size_t j, Rng &g) { return g.chance(1, 2) ? value(7) : any_value(j, g); };
                k.result = [inequality](const values &v) { return values {value((v[0] == v[1]) != inequality ? 1 : 0)}; };
                k.make = [inequality](cols w, const vars &in) {
                    return bind(bc::equality_flag<arith, field>(w, first_column, no_columns, inequality), {in[0], in[1]});
                };
                break;
            }
            case LOGIC: {
                static const char *names[] = {"logic_not", "logic_and", "logic_or", "logic_xor", "logic_nand", "logic_nor", "select"};
                unsigned op = unsigned(q % 7);
                k.name = names[op];
                k.inputs = op == 0 ? 1 : op == 6 ? 3 : 2;
                k.widths = {k.inputs + 1};
                k.want = [op](std::size_t j, Rng &g) { return op == 6 && j ? any_value(j, g) : value(g.below(2)); };
                k.fits = [op](const values &v) {
                    for (std::size_t j = 0; j < v.size(); j++)
                        if (!(op == 6 && j) && !is_bit(v[j]))
                            return false;
                    return true;
                };
                k.result = [op](const values &v) {
                    bool a = !v[0].is_zero(), b = v.size() > 1 && !v[1].is_zero();
                    if (op == 6)
                        return values {a ? v[1] : v[2]};
                    bool r[] = {!a, a && b, a || b, a != b, !(a && b), !(a || b)};
                    return values {value(r[op] ? 1 : 0)};
                };
                k.make = [op](cols w, const vars &in) -> placed {
                    switch (op) {
                        case 0:
                            return logic_of<bc::logic_not<arith>>(w, in);
                        case 1:
                            return logic_of<bc::logic_and<arith>>(w, in);
                        case 2:
                            return logic_of<bc::logic_or<arith>>(w, in);
                        case 3:
                            return logic_of<bc::logic_xor<arith>>(w, in);
                        case 4:
                            return logic_of<bc::logic_nand<arith>>(w, in);
                        case 5:
                            return logic_of<bc::logic_nor<arith>>(w, in);
                        default:
                            return logic_of<bc::select<arith>>(w, in);
                    }
                };
                break;
            }
            case LOOKUP_LOGIC: {
                bool x = q & 1;
                k.name = x ? "lookup_logic_xor" : "lookup_logic_and";
                k.widths = {3};
                k.want = binary;
                k.fits = all_bits;
                k.tables = {x ? "binary_xor_table/full" : "binary_and_table/full"};
                k.result = [x](const values &v) {
                    bool a = !v[0].is_zero(), b = !v[1].is_zero();
                    return values {value((x ? a != b : a && b) ? 1 : 0)};
                };
                k.make = [x](cols w, const vars &in) -> placed {
                    return x ? logic_of<bc::lookup_logic_xor<arith>>(w, in) : logic_of<bc::lookup_logic_and<arith>>(w, in);
                };
                break;
            }
            case ADDITIONS:
            case MULTIPLICATIONS: {
                std::size_t n = 1 + q % 6;
                bool m = which == MULTIPLICATIONS;
                k.name = std::string(m ? "flexible_multiplications(" : "flexible_additions(") + std::to_string(n) + ")";
                k.widths = m ? upto(5, max_width, 5) : upto(3, max_width, 3);
                k.inputs = 2 * n;
                k.result = [n, m](const values &v) {
                    values r;
                    for (std::size_t i = 0; i < n; i++)
                        r.push_back(m ? v[2 * i] * v[2 * i + 1] : v[2 * i] + v[2 * i + 1]);
                    return r;
                };
                k.make = [n, m](cols w, const vars &in) -> placed {
                    std::vector<std::pair<var, var>> arr;
                    for (std::size_t i = 0; i < n; i++)
                        arr.push_back({in[2 * i], in[2 * i + 1]});
                    if (m)
                        return bind(bc::flexible_multiplications<arith, field>(w, first_column, no_columns, n), {arr});
                    return bind(bc::flexible_additions<arith, field>(w, first_column, no_columns, n), {arr});
                };
                break;
            }
            case CONSTANT_POW: {
                integral e = integral(1 + q % (q & 0x100000 ? 1000000 : 40));
                k.name = "flexible_constant_pow(" + e.str() + ")";
                k.widths = upto(5, max_width);
                k.inputs = 1;
                k.result = [e](const values &v) { return values {v[0].pow(e)}; };
                k.make = [e](cols w, const vars &in) {
                    return bind(bc::flexible_constant_pow<arith, field>(w, first_column, no_columns, e), {in[0]});
                };
                break;
            }
            case POW_FACTOR: {
                std::size_t n = 1 + q % 20;
                k.name = "pow_factor(" + std::to_string(n) + ")";
                k.widths = upto(10, std::max<std::size_t>(10, std::min<std::size_t>(max_width, 10 + n / 6)), 8);
                k.inputs = n + 2;
                k.result = [](const values &v) {
                    value r = v[1];
                    for (std::size_t i = 2; i < v.size(); i++)
                        r = r * v[0] + v[i];
                    return values {r};
                };
                k.make = [n](cols w, const vars &in) {
                    return bind(bc::pow_factor<arith, field>(w, first_column, no_columns, n), {in[0], vars(in.begin() + 1, in.end())});
                };
                break;
            }
            case ARRAY_SWAP: {
                std::size_t n = 1 + q % 4;
                k.name = "fri_array_swap(" + std::to_string(n) + ")";
                k.widths = upto(5, std::min(max_width, 5 + 4 * (n - 1)), 4);
                k.inputs = 1 + 2 * n;
                k.want = [](std::size_t j, Rng &g) { return j ? any_value(j, g) : value(g.below(2)); };
                k.fits = [](const values &v) { return is_bit(v[0]); };
                k.result = [n](const values &v) {
                    values r;
                    for (std::size_t i = 0; i < n; i++) {
                        r.push_back(v[1 + 2 * i + (v[0].is_zero() ? 0 : 1)]);
                        r.push_back(v[1 + 2 * i + (v[0].is_zero() ? 1 : 0)]);
                    }
                    return r;
                };
                k.make = [n](cols w, const vars &in) {
                    return bind(bc::fri_array_swap<arith, field>(w, first_column, no_columns, n), {in[0], vars(in.begin() + 1, in.end())});
                };
                break;
            }
            case LIN_INTER:
                k.name = "fri_lin_inter";
                k.widths = {5};
                k.inputs = 4;
                k.fits = [](const values &v) { return !v[0].is_zero(); };
                k.result = [](const values &v) {
                    return values {v[1] + (v[2] - v[1]) * (v[0] - v[3]) * (value(2) * v[0]).inversed()};
                };
                k.make = [](cols w, const vars &in) {
                    return bind(bc::fri_lin_inter<arith, field>(w, first_column, no_columns), {in[0], in[1], in[2], in[3]});
                };
                break;
            case F1_LOOP: {
                std::size_t m = 1 + q % 7;
                k.name = "f1_loop(" + std::to_string(m) + ")";
                k.widths = upto(4, std::min<std::size_t>(max_width, 14));
                k.inputs = 2 + 2 * m;
                k.result = [m](const values &v) {
                    value h = value::one(), delta = (value::one() + v[0]) * v[1];
                    for (std::size_t i = 0; i < m; i++)
                        h *= delta + v[2 + i] + v[0] * v[2 + m + i];
                    return values {h};
                };
                k.make = [m](cols w, const vars &in) {
                    return bind(bc::detail::f1_loop<arith>(w, first_column, no_columns, m),
                                {in[0], in[1], vars(in.begin() + 2, in.begin() + 2 + m), vars(in.begin() + 2 + m, in.end())});
                };
                break;
            }
            case F3_LOOP: {
                std::size_t m = 1 + q % 7;
                k.name = "f3_loop(" + std::to_string(m) + ")";
                k.widths = upto(4, std::min<std::size_t>(max_width, 14));
                k.inputs = 3 * m;
                k.result = [m](const values &v) {
                    value f = value::zero();
                    for (std::size_t i = 0; i < m; i++)
                        f += (v[m + i] - v[2 * m + i]) * v[i];
                    return values {f};
                };
                k.make = [m](cols w, const vars &in) {
                    return bind(bc::detail::f3_loop<arith>(w, first_column, no_columns, m),
                                {vars(in.begin(), in.begin() + m), vars(in.begin() + m, in.begin() + 2 * m), vars(in.begin() + 2 * m, in.end())});
                };
                break;
            }
            default: {
                std::size_t d = 1 + q % 7;
                k.name = "gate_component(" + std::to_string(d) + ")";
                k.widths = upto(3, std::min<std::size_t>(max_width, 14));
                k.inputs = d + 3;
                k.result = [d](const values &v) {
                    value g = value::zero();
                    for (std::size_t i = d; i >= 1; i--)
                        g = v[0] * (g + v[1 + i]);
                    return values {v[d + 2] * (g + v[1])};
                };
                k.make = [d](cols w, const vars &in) {
                    return bind(bc::detail::gate_component<arith>(w, first_column, no_columns, d),
                                {in[0], vars(in.begin() + 1, in.end() - 1), in.back()});
                };
            }
        }
        std::vector<std::size_t> fit;
        for (auto w : k.widths)
            if (w <= max_width)
                fit.push_back(w);
        k.widths = fit;
        return k;
    }
#endif
}    // namespace comp

#endif
