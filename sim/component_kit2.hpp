// More components behind the interface of component_kit.hpp: hashes, curve points, foreign fields, powers and roots, and
// the parts of the placeholder verifier.
#ifndef VERIF_COMPONENT_KIT2_HPP
#define VERIF_COMPONENT_KIT2_HPP

#include "component_kit.hpp"
#include "poseidon_numbers.hpp"

#include <nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/sqrt.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/range.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/reduction.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/unified_addition.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/complete_addition.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/bool_scalar_multiplication.hpp>
#include <nil/blueprint/components/algebra/curves/edwards/plonk/non_native/scalar_non_native_range.hpp>
#include <nil/blueprint/components/hashes/poseidon/plonk/poseidon.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/decomposition.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/permutation_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp>
#include <nil/blueprint/zkevm/state_selector.hpp>

namespace comp {
    namespace curves = nil::crypto3::algebra::curves;
    typedef nil::crypto3::algebra::fields::curve25519_base_field foreign;
    typedef typename foreign::value_type foreign_value;
    typedef typename foreign::integral_type foreign_integral;
    typedef curves::pallas::template g1_type<curves::coordinates::affine>::value_type pallas_point;
    typedef curves::ed25519::template g1_type<curves::coordinates::affine>::value_type edwards_point;

    enum : unsigned {
        STATE_SELECTOR,
        POWER,
        ROOT,
        COSETS,
        PERMUTATION_VERIFIER,
        GATE_VERIFIER,
        LOOKUP_VERIFIER,
        DECOMPOSITION,
        FOREIGN_ADD,
        FOREIGN_SUB,
        FOREIGN_MUL,
        FOREIGN_RANGE,
        PALLAS_ADD,
        EDWARDS_ADD,
        EDWARDS_DOUBLE,
        POSEIDON,
        FLEXIBLE_POSEIDON,
        ENDO_SCALAR,
        X_INDEX,
        BIT_TIMES_POINT,
        SCALAR_RANGE,
        REDUCTION,
        SHA512_ROUNDS,
        HEAVY_KINDS
    };

    // foreign numbers live in limbs of 66, 66, 66 and 57 bits
    inline value limb(const foreign_integral &x, unsigned i) { return value(integral((x >> (66 * i)) & ((foreign_integral(1) << 66) - 1))); }
    inline void put_foreign(values &to, const foreign_value &x) {
        for (unsigned i = 0; i < 4; i++)
            to.push_back(limb(foreign_integral(x.data), i));
    }
    inline bool is_foreign(const values &v, std::size_t at) {
        for (unsigned i = 0; i < 4; i++)
            if (!below_bits(v[at + i], i < 3 ? 66 : 57))
                return false;
        foreign_integral sum = 0;
        for (unsigned i = 4; i-- > 0;)
            sum = (sum << 66) + foreign_integral(integral(v[at + i].data));
        return sum < foreign_integral(foreign::modulus);
    }
    inline foreign_value get_foreign(const values &v, std::size_t at) {
        foreign_integral sum = 0;
        for (unsigned i = 4; i-- > 0;)
            sum = (sum << 66) + foreign_integral(integral(v[at + i].data));
        return foreign_value(sum);
    }
    inline foreign_value want_foreign(Rng &g) {
        foreign_integral p = foreign::modulus;
        switch (g.below(6)) {
            case 0:
                return foreign_value(foreign_integral(g.below(3)));
            case 1:
                return foreign_value(foreign_integral(p - 1 - g.below(25)));
            case 2:
                return foreign_value(foreign_integral(1) << unsigned(g.below(255)));
            case 3:
                return foreign_value((foreign_integral(1) << unsigned(66 * g.range(1, 3))) - 1);
            default: {
                foreign_integral r = 0;
                for (int i = 0; i < 4; i++)
                    r = (r << 63) + (g.next() >> 1);
                return foreign_value(r % p);
            }
        }
    }

    // the compression function of SHA-512; its constants are the first 64 bits behind the point of the cube roots of the
    // first 80 primes
    inline std::array<u64, 8> sha512_rounds(const std::array<u64, 8> &state, const std::array<u64, 16> &words) {
        static const std::vector<u64> constants = [] {
            typedef boost::multiprecision::cpp_int wide;
            std::vector<u64> r;
            for (unsigned p = 2; r.size() < 80; p++) {
                bool prime = true;
                for (unsigned d = 2; d * d <= p; d++)
                    prime = prime && p % d;
                if (!prime)
                    continue;
                wide root = 0, cube = wide(p) << 192;
                for (unsigned bit = 68; bit-- > 0;) {
                    wide next = root + (wide(1) << bit);
                    if (next * next * next <= cube)
                        root = next;
                }
                r.push_back(u64(root & wide(~u64(0))));
            }
            return r;
        }();
        auto turn = [](u64 x, unsigned by) { return x >> by | x << (64 - by); };
        std::vector<u64> w(words.begin(), words.end());
        for (unsigned t = 16; t < 80; t++)
            w.push_back((turn(w[t - 2], 19) ^ turn(w[t - 2], 61) ^ w[t - 2] >> 6) + w[t - 7] + (turn(w[t - 15], 1) ^ turn(w[t - 15], 8) ^ w[t - 15] >> 7) +
                        w[t - 16]);
        std::array<u64, 8> s = state;
        for (unsigned t = 0; t < 80; t++) {
            u64 one = s[7] + (turn(s[4], 14) ^ turn(s[4], 18) ^ turn(s[4], 41)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + constants[t] + w[t];
            u64 two = (turn(s[0], 28) ^ turn(s[0], 34) ^ turn(s[0], 39)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
            s = {one + two, s[0], s[1], s[2], s[3] + one, s[4], s[5], s[6]};
        }
        for (unsigned i = 0; i < 8; i++)
            s[i] += state[i];
        return s;
    }

    inline pallas_point pallas_add(const pallas_point &a, const pallas_point &b) {
        auto none = [](const pallas_point &p) { return p.X.is_zero() && p.Y.is_zero(); };
        pallas_point zero(value(0), value(0));
        if (none(a) || none(b))
            return none(a) ? b : a;
        if (a.X == b.X && a.Y == -b.Y)
            return zero;
        value s = a.X == b.X ? value(3) * a.X * a.X * (value(2) * a.Y).inversed() : (b.Y - a.Y) * (b.X - a.X).inversed();
        value x = s * s - a.X - b.X;
        return pallas_point(x, s * (a.X - x) - a.Y);
    }
    inline bool on_pallas(const value &x, const value &y) { return (x.is_zero() && y.is_zero()) || y * y == x * x * x + value(5); }
    inline bool on_edwards(const values &v, std::size_t at) {
        if (!is_foreign(v, at) || !is_foreign(v, at + 4))
            return false;
        foreign_value x = get_foreign(v, at), y = get_foreign(v, at + 4), one(1);
        static const foreign_value d = -foreign_value(121665) * foreign_value(121666).inversed();
        return y * y - x * x == one + d * x * x * y * y;
    }
    inline edwards_point edwards_add(const edwards_point &a, const edwards_point &b) {
        static const foreign_value d = -foreign_value(121665) * foreign_value(121666).inversed();
        foreign_value one(1), t = d * a.X * b.X * a.Y * b.Y;
        return edwards_point((a.X * b.Y + a.Y * b.X) * (one + t).inversed(), (a.Y * b.Y + a.X * b.X) * (one - t).inversed());
    }
    template<typename P, typename F>
    P multiple(P base, u64 times, P zero, F add) {
        for (; times; times >>= 1) {
            if (times & 1)
                zero = add(zero, base);
            base = add(base, base);
        }
        return zero;
    }
    inline pallas_point want_pallas(Rng &g) {
        // (-1, 2) lies on y^2 = x^3 + 5
        pallas_point base(-value(1), value(2)), zero(value(0), value(0));
        return multiple(base, g.chance(1, 6) ? 0 : g.chance(1, 2) ? g.range(1, 4) : i64(g.next() >> 40), zero, pallas_add);
    }
    inline edwards_point want_edwards(Rng &g) {
        // y = 4/5
        static const edwards_point base(
            foreign_value(foreign_integral("0x216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a")),
            foreign_value(foreign_integral("0x6666666666666666666666666666666666666666666666666666666666666658")));
        edwards_point zero(foreign_value(0), foreign_value(1));
        if (g.chance(1, 12))
            return edwards_point(foreign_value(0), -foreign_value(1));
        return multiple(base, g.chance(1, 6) ? 0 : g.chance(1, 2) ? g.range(1, 4) : i64(g.next() >> 40), zero, edwards_add);
    }

    // the order of the subgroup ed25519 works in
    inline integral edwards_order() {
        return (integral(1) << 252) + integral("27742317777372353535851937790883648493");
    }

    inline bool is_square(const value &x) { return x.is_zero() || x.pow((integral(field::modulus) - 1) / 2) == value::one(); }

    inline values poseidon_of(const values &in) {
        static const values numbers = [] {
            values r;
            for (auto *x : poseidon_numbers::matrix)
                r.push_back(value(integral(x)));
            for (auto *x : poseidon_numbers::rounds)
                r.push_back(value(integral(x)));
            return r;
        }();
        values s = in;
        for (std::size_t r = 0; r < 55; r++) {
            values box, t;
            for (auto &x : s)
                box.push_back(x * x * x * x * x * x * x);
            for (std::size_t j = 0; j < 3; j++)
                t.push_back(box[0] * numbers[3 * j] + box[1] * numbers[3 * j + 1] + box[2] * numbers[3 * j + 2] + numbers[9 + 3 * r + j]);
            s = t;
        }
        return s;
    }

    template<std::size_t Bits>
    kind power_kind(kind k) {
        typedef bc::exponentiation<arith, field, Bits> C;
        k.name = "exponentiation " + std::to_string(Bits);
        k.want = [](std::size_t j, Rng &g) { return j ? bits_value(g, unsigned(std::min<std::size_t>(Bits, 254))) : any_value(j, g); };
        k.fits = [](const values &v) { return Bits > 254 || below_bits(v[1], unsigned(Bits)); };
        k.result = [](const values &v) { return values {v[0].pow(integral(v[1].data))}; };
        k.make = [](const std::vector<std::size_t> &w, const vars &in) { return bind(C(w, first_column, no_columns), {in[0], in[1]}); };
        return k;
    }

    inline kind heavy_kind(unsigned which, u64 param, std::size_t max_width) {
        kind k;
        k.want = any_value;
        k.fits = always;
        typedef const std::vector<std::size_t> &cols;
        const bundle limbs = {"foreign", 4}, point = {"pallas", 2}, edwards = {"edwards", 8};
        auto foreign_binary = [&](const char *name) {
            k.name = name;
            k.open = true;    // carries and pieces are not checked for size
            k.widths = {9};
            k.inputs = 8;
            k.in = {limbs, limbs};
            k.out = {limbs};
            k.constant = false;
            k.want_all = [](Rng &g) {
                values v;
                put_foreign(v, want_foreign(g));
                put_foreign(v, want_foreign(g));
                return v;
            };
            k.fits = [](const values &v) { return is_foreign(v, 0) && is_foreign(v, 4); };
        };
        switch (which) {
            case STATE_SELECTOR: {
                typedef bc::state_selector<arith, field> C;
                std::size_t n = 1 + param % std::min<std::size_t>(24, 2 * (max_width - 2));
                k.name = "state_selector " + std::to_string(n);
                k.inputs = 1;
                k.widths = {(n + 1) / 2 + 2};
                k.want = [n](std::size_t, Rng &g) { return value(g.below(n + 2)); };
                k.fits = [n](const values &v) { return integral(v[0].data) < n; };
                k.refuses = [n](const values &v) { return integral(v[0].data) >= n; };
                k.result = [](const values &) { return values(); };
                k.make = [n](cols w, const vars &in) { return bind(C(w, no_columns, no_columns, n), {in[0]}); };
                break;
            }
            case POWER: {
                k.inputs = 2;
                k.widths = {15};
                k = param % 4 == 0 ? power_kind<256>(k) : param % 4 == 1 ? power_kind<64>(k) : param % 4 == 2 ? power_kind<20>(k) : power_kind<1>(k);
                break;
            }
            case ROOT: {
                typedef bc::sqrt<arith, field> C;
                k.name = "sqrt";
                k.inputs = 1;
                k.widths = {15};
                k.circuit_first = true;
                k.want = [](std::size_t j, Rng &g) {
                    value x = any_value(j, g);
                    return g.chance(1, 2) ? x * x : x;
                };
                k.result = [](const values &v) { return values {is_square(v[0]) ? v[0] : -value(1)}; };
                k.accepts = [](const values &v, const values &r) { return is_square(v[0]) ? r[0] * r[0] == v[0] : r[0] == -value(1); };
                k.make = [](cols w, const vars &in) { return bind(C(w, first_column, no_columns), {in[0]}); };
                break;
            }
            case COSETS: {
                typedef bc::fri_cosets<arith, field> C;
                std::size_t n = 1 + param % 12;
                value omega = value(5).pow(((integral(field::modulus) - 1) >> unsigned(n)) * (2 * (param / 12 % 5) + 1));
                k.name = "fri_cosets " + std::to_string(n);
                k.inputs = 1;
                k.widths = upto(9, std::min<std::size_t>(max_width, 9 * n), 9);
                k.result = [n, omega](const values &v) {
                    integral x = integral(v[0].data);
                    value s = omega.pow(x & ((integral(1) << unsigned(n)) - 1));
                    values r;
                    for (std::size_t i = 0; i < n; i++) {
                        r.push_back(s);
                        r.push_back(-s);
                        r.push_back(value(integral((x >> unsigned(n - 1 - i)) & 1)));
                        s = s * s;
                    }
                    return r;
                };
                k.make = [n, omega](cols w, const vars &in) { return bind(C(w, first_column, no_columns, n, omega), {in[0]}); };
                break;
            }
            case PERMUTATION_VERIFIER: {
                typedef bc::permutation_verifier<arith> C;
                std::size_t m = 2 + param % 9;
                k.name = "permutation_verifier " + std::to_string(m);
                k.inputs = 3 * m + 7;
                k.widths = {6};
                k.constant = false;
                k.result = [m](const values &v) {
                    const value *rest = &v[3 * m];
                    value L0 = rest[0], V = rest[1], Vz = rest[2], q = rest[3], pad = rest[4], t1 = rest[5], t2 = rest[6], one = value::one(), g = one, h = one;
                    for (std::size_t i = 0; i < m; i++) {
                        g = g * (v[i] + t1 * v[m + i] + t2);
                        h = h * (v[i] + t1 * v[2 * m + i] + t2);
                    }
                    return values {L0 * (one - V), (one - (q + pad)) * (Vz * h - V * g), q * (V * V - V)};
                };
                k.make = [m](cols w, const vars &in) {
                    typename C::input_type i;
                    i.f.assign(in.begin(), in.begin() + m);
                    i.Se.assign(in.begin() + m, in.begin() + 2 * m);
                    i.Ssigma.assign(in.begin() + 2 * m, in.begin() + 3 * m);
                    i.L0 = in[3 * m];
                    i.V = in[3 * m + 1];
                    i.V_zeta = in[3 * m + 2];
                    i.q_last = in[3 * m + 3];
                    i.q_pad = in[3 * m + 4];
                    i.thetas = {in[3 * m + 5], in[3 * m + 6]};
                    return bind(C(w, no_columns, no_columns, m), i);
                };
                break;
            }
            case GATE_VERIFIER: {
                typedef bc::basic_constraints_verifier<arith> C;
                Rng g(param);
                std::vector<std::size_t> sizes(g.range(1, 4));
                std::size_t total = 0;
                k.name = "basic_constraints_verifier";
                for (auto &s : sizes) {
                    // one constraint alone has no use for theta
                    s = g.chance(1, 2) && sizes.size() > 1 ? 1 : g.range(2, 6);
                    total += s;
                    k.name += " " + std::to_string(s);
                }
                k.inputs = 1 + total + sizes.size();
                k.widths = upto(3, std::min<std::size_t>(max_width, 15));
                k.circuit_first = true;
                k.result = [sizes, total](const values &v) {
                    value power = value::one(), sum = value::zero();
                    std::size_t at = 1;
                    for (std::size_t i = 0; i < sizes.size(); i++)
                        for (std::size_t j = 0; j < sizes[i]; j++) {
                            sum = sum + power * v[at++] * v[1 + total + i];
                            power = power * v[0];
                        }
                    return values {sum};
                };
                k.make = [sizes, total](cols w, const vars &in) {
                    typename C::input_type i;
                    i.theta = in[0];
                    i.constraints.assign(in.begin() + 1, in.begin() + 1 + total);
                    i.selectors.assign(in.begin() + 1 + total, in.end());
                    std::vector<std::size_t> mine = sizes;
                    return bind(C(w, first_column, no_columns, mine), i);
                };
                break;
            }
            case LOOKUP_VERIFIER: {
                typedef bc::lookup_verifier<arith> C;
                Rng g(param);
                std::vector<std::size_t> gates(g.range(1, 3)), inputs, options(g.range(1, 3)), columns(options.size());
                std::size_t constraints = 0, ins = 0, opts = 0, cells = 0;
                k.name = "lookup_verifier";
                for (auto &x : gates) {
                    x = g.range(1, 2);
                    constraints += x;
                    k.name += " g" + std::to_string(x);
                }
                for (std::size_t i = 0; i < constraints; i++) {
                    inputs.push_back(g.range(1, 4));
                    ins += inputs.back();
                    k.name += " i" + std::to_string(inputs.back());
                }
                for (std::size_t i = 0; i < options.size(); i++) {
                    options[i] = g.range(1, 2);
                    columns[i] = g.range(1, 4);
                    opts += options[i];
                    cells += options[i] * columns[i];
                    k.name += " t" + std::to_string(options[i]) + "x" + std::to_string(columns[i]);
                }
                std::size_t m = constraints + opts, ng = gates.size(), nt = options.size();
                // theta beta gamma | alphas | V_L | q_last | q_blind | L0 | gate selectors | ids | inputs | table selectors |
                // options | shifted selectors | shifted options | sorted
                std::vector<std::size_t> parts = {3, m - 1, 2, 2, 2, 1, ng, constraints, ins, nt, cells, nt, cells, 3 * m - 1}, start = {0};
                for (auto p : parts)
                    start.push_back(start.back() + p);
                k.inputs = start.back();
                k.widths = upto(4, std::min<std::size_t>(max_width, 15));
                k.circuit_first = true;
                k.result = [=](const values &v) {
                    auto at = [&](std::size_t part, std::size_t i) { return v[start[part] + i]; };
                    value one = value::one(), theta = v[0], beta = v[1], gamma = v[2], V = at(2, 0), Vs = at(2, 1);
                    value mask = one - (at(3, 0) + at(4, 0)), shifted_mask = one - (at(3, 1) + at(4, 1)), L0 = at(5, 0);
                    values in, val, shifted;
                    std::size_t cell = 0;
                    for (std::size_t t = 0; t < nt; t++)
                        for (std::size_t o = 0; o < options[t]; o++) {
                            value a = value(t + 1), b = a, power = one;
                            for (std::size_t j = 0; j < columns[t]; j++, cell++) {
                                power = power * theta;
                                a = a + power * at(10, cell);
                                b = b + power * at(12, cell);
                            }
                            val.push_back(a * at(9, t) * mask);
                            shifted.push_back(b * at(11, t) * shifted_mask);
                        }
                    std::size_t n = 0, x = 0;
                    for (std::size_t gate = 0; gate < ng; gate++)
                        for (std::size_t j = 0; j < gates[gate]; j++, n++) {
                            value a = at(7, n), power = one;
                            for (std::size_t l = 0; l < inputs[n]; l++) {
                                power = power * theta;
                                a = a + power * at(8, x++);
                            }
                            in.push_back(a * at(6, gate));
                        }
                    value d = (one + beta) * gamma, g1 = one, h = one, f3 = value::zero();
                    for (auto &a : in)
                        g1 = g1 * (d + a + beta * a);
                    for (std::size_t i = 0; i < val.size(); i++)
                        g1 = g1 * (d + val[i] + beta * shifted[i]);
                    for (std::size_t i = 0; i < m; i++) {
                        h = h * (d + at(13, i) + beta * at(13, m + i));
                        if (i)
                            f3 = f3 + at(1, i - 1) * (at(13, i) - at(13, 2 * m + i - 1));
                    }
                    return values {(one - V) * L0, at(3, 0) * (V * V - V), mask * (Vs * h - V * g1), f3 * L0};
                };
                k.make = [=](cols w, const vars &in) {
                    auto part = [&](std::size_t p) { return vars(in.begin() + start[p], in.begin() + start[p + 1]); };
                    typename C::input_type i;
                    i.theta = in[0];
                    i.beta = in[1];
                    i.gamma = in[2];
                    i.alphas = part(1);
                    i.V_L_values = {in[start[2]], in[start[2] + 1]};
                    i.q_last = {in[start[3]], in[start[3] + 1]};
                    i.q_blind = {in[start[4]], in[start[4] + 1]};
                    i.L0 = in[start[5]];
                    i.lookup_gate_selectors = part(6);
                    i.lookup_gate_constraints_table_ids = part(7);
                    i.lookup_gate_constraints_lookup_inputs = part(8);
                    i.lookup_table_selectors = part(9);
                    i.lookup_table_lookup_options = part(10);
                    i.shifted_lookup_table_selectors = part(11);
                    i.shifted_lookup_table_lookup_options = part(12);
                    i.sorted = part(13);
                    auto a = gates, b = inputs, o = options, l = columns;
                    return bind(C(w, first_column, no_columns, ng, a, b, nt, o, l), i);
                };
                break;
            }
            case DECOMPOSITION: {
                typedef bc::decomposition<arith, field> C;
                k.name = "decomposition";
                k.open = true;    // its words are not checked for size
                k.inputs = 2;
                k.widths = {9};
                k.constant = false;
                k.want = [](std::size_t, Rng &g) { return bits_value(g, 128); };
                k.fits = [](const values &v) { return below_bits(v[0], 128) && below_bits(v[1], 128); };
                k.refuses = [](const values &v) { return !below_bits(v[0], 128) || !below_bits(v[1], 128); };
                k.result = [](const values &v) {
                    values r;
                    for (int w = 0; w < 2; w++)
                        for (unsigned i = 4; i-- > 0;)
                            r.push_back(value(integral((integral(v[w].data) >> (32 * i)) & integral(0xffffffffu))));
                    return r;
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.data = {in[0], in[1]};
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case FOREIGN_ADD: {
                typedef bc::addition<arith, foreign, policy> C;
                foreign_binary("non-native addition");
                k.result = [](const values &v) {
                    values r;
                    put_foreign(r, get_foreign(v, 0) + get_foreign(v, 4));
                    return r;
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.A = {in[0], in[1], in[2], in[3]};
                    i.B = {in[4], in[5], in[6], in[7]};
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case FOREIGN_SUB: {
                typedef bc::subtraction<arith, foreign, policy> C;
                foreign_binary("non-native subtraction");
                k.result = [](const values &v) {
                    values r;
                    put_foreign(r, get_foreign(v, 0) - get_foreign(v, 4));
                    return r;
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.A = {in[0], in[1], in[2], in[3]};
                    i.B = {in[4], in[5], in[6], in[7]};
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case FOREIGN_MUL: {
                typedef bc::multiplication<arith, foreign, policy> C;
                foreign_binary("non-native multiplication");
                k.result = [](const values &v) {
                    values r;
                    put_foreign(r, get_foreign(v, 0) * get_foreign(v, 4));
                    return r;
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.A = {in[0], in[1], in[2], in[3]};
                    i.B = {in[4], in[5], in[6], in[7]};
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case FOREIGN_RANGE: {
                typedef bc::range<arith, foreign, policy> C;
                k.name = "non-native range";
                k.open = true;    // its pieces are not checked for size
                k.widths = {9};
                k.inputs = 4;
                k.in = {limbs};
                k.constant = false;
                k.want_all = [](Rng &g) {
                    values v;
                    if (g.chance(1, 3)) {
                        // at or above the modulus, or a limb too long
                        foreign_integral p = foreign::modulus, x = p + g.below(19);
                        for (unsigned i = 0; i < 4; i++)
                            v.push_back(limb(x, i));
                        if (g.chance(1, 2)) {
                            unsigned i = unsigned(g.below(4));
                            v[i] = value(power_of_two(i < 3 ? 66 : 57) + g.below(5));
                        }
                    } else
                        put_foreign(v, want_foreign(g));
                    return v;
                };
                k.fits = [](const values &v) { return is_foreign(v, 0); };
                k.refuses = [](const values &v) { return !is_foreign(v, 0); };
                k.result = [](const values &) { return values(); };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.input = {in[0], in[1], in[2], in[3]};
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case PALLAS_ADD: {
                typedef bc::unified_addition<arith, curves::pallas> C;
                k.name = "unified_addition";
                k.widths = {11};
                k.inputs = 4;
                k.in = {point, point};
                k.out = {point};
                k.constant = false;
                k.want_all = [](Rng &g) {
                    pallas_point p = want_pallas(g), q = want_pallas(g);
                    if (g.chance(1, 3))
                        q = g.chance(1, 2) ? p : pallas_point(p.X, -p.Y);
                    return values {p.X, p.Y, q.X, q.Y};
                };
                k.fits = [](const values &v) { return on_pallas(v[0], v[1]) && on_pallas(v[2], v[3]); };
                k.result = [](const values &v) {
                    pallas_point r = pallas_add(pallas_point(v[0], v[1]), pallas_point(v[2], v[3]));
                    return values {r.X, r.Y};
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.P = {in[0], in[1]};
                    i.Q = {in[2], in[3]};
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case EDWARDS_ADD: {
                typedef bc::complete_addition<arith, curves::pallas, curves::ed25519, policy> C;
                k.name = "complete_addition";
                k.open = true;    // as the multiplication it is made of
                k.widths = {9};
                k.inputs = 16;
                k.in = {edwards, edwards};
                k.out = {edwards};
                k.circuit_first = true;
                k.want_all = [](Rng &g) {
                    edwards_point p = want_edwards(g), q = want_edwards(g);
                    if (g.chance(1, 3))
                        q = g.chance(1, 2) ? p : edwards_point(-p.X, p.Y);
                    values v;
                    put_foreign(v, p.X);
                    put_foreign(v, p.Y);
                    put_foreign(v, q.X);
                    put_foreign(v, q.Y);
                    return v;
                };
                k.fits = [](const values &v) { return on_edwards(v, 0) && on_edwards(v, 8); };
                k.result = [](const values &v) {
                    edwards_point r = edwards_add(edwards_point(get_foreign(v, 0), get_foreign(v, 4)), edwards_point(get_foreign(v, 8), get_foreign(v, 12)));
                    values o;
                    put_foreign(o, r.X);
                    put_foreign(o, r.Y);
                    return o;
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.T.x = {in[0], in[1], in[2], in[3]};
                    i.T.y = {in[4], in[5], in[6], in[7]};
                    i.R.x = {in[8], in[9], in[10], in[11]};
                    i.R.y = {in[12], in[13], in[14], in[15]};
                    return bind(C(w, first_column, no_columns), i);
                };
                break;
            }
            case EDWARDS_DOUBLE: {
                typedef bc::doubling<arith, curves::pallas, curves::ed25519, policy> C;
                k.name = "doubling";
                k.open = true;    // as the multiplication it is made of
                k.widths = {9};
                k.inputs = 8;
                k.in = {edwards};
                k.out = {edwards};
                k.want_all = [](Rng &g) {
                    edwards_point p = want_edwards(g);
                    values v;
                    put_foreign(v, p.X);
                    put_foreign(v, p.Y);
                    return v;
                };
                k.fits = [](const values &v) { return on_edwards(v, 0); };
                k.result = [](const values &v) {
                    edwards_point p(get_foreign(v, 0), get_foreign(v, 4)), r = edwards_add(p, p);
                    values o;
                    put_foreign(o, r.X);
                    put_foreign(o, r.Y);
                    return o;
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.T.x = {in[0], in[1], in[2], in[3]};
                    i.T.y = {in[4], in[5], in[6], in[7]};
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case POSEIDON: {
                typedef bc::poseidon<arith, field> C;
                k.name = "poseidon";
                k.widths = {15};
                k.inputs = 3;
                k.constant = false;
                k.result = poseidon_of;
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.input_state = {in[0], in[1], in[2]};
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case ENDO_SCALAR: {
                typedef bc::endo_scalar<arith, curves::vesta> C;
                k.name = "endo_scalar";
                k.widths = {15};
                k.inputs = 1;
                k.constant = false;
                k.want = [](std::size_t, Rng &g) { return bits_value(g, 128); };
                k.fits = [](const values &v) { return below_bits(v[0], 128); };
                k.result = [](const values &v) {
                    // a cube root of one in the scalar field of vesta
                    static const value endo(integral("0x12CCCA834ACDBA712CAAD5DC57AAB1B01D1F8BD237AD31491DAD5EBDFDFE4AB9"));
                    value a(2), b(2);
                    for (int i = 126; i >= 0; i -= 2) {
                        unsigned crumb = unsigned((integral(v[0].data) >> unsigned(i)) & integral(3));
                        value s = crumb & 1 ? value(1) : -value(1);
                        a = a + a;
                        b = b + b;
                        (crumb & 2 ? a : b) += s;
                    }
                    return values {a * endo + b};
                };
                k.make = [](cols w, const vars &in) { return bind(C(w, no_columns, no_columns, 128), {in[0]}); };
                break;
            }
            case X_INDEX: {
                typedef bc::flexible_x_index<arith, field> C;
                std::size_t n = 1 + param % 20;
                // of order 2^(n + 1)
                value omega = value(5).pow((integral(field::modulus) - 1) >> unsigned(n + 1));
                auto point_of = [n, omega](const values &v) {
                    value x(1);
                    for (std::size_t i = n; i > 0; i--)
                        x = x * x * (v[i] == value(1) ? value(1) : omega);
                    return x;
                };
                k.name = "x_index " + std::to_string(n);
                k.inputs = n + 1;
                k.widths = upto(3, max_width, 3);
                k.want_all = [n, point_of](Rng &g) {
                    values v(1, value(0));
                    for (std::size_t i = 0; i < n; i++)
                        v.push_back(value(g.below(2)));
                    v[0] = g.chance(1, 2) ? point_of(v) : -point_of(v);
                    return v;
                };
                k.fits = [n, point_of](const values &v) {
                    for (std::size_t i = 1; i <= n; i++)
                        if (!is_bit(v[i]))
                            return false;
                    return v[0] == point_of(v) || v[0] == -point_of(v);
                };
                k.refuses = [n, point_of](const values &v) {
                    for (std::size_t i = 1; i <= n; i++)
                        if (!is_bit(v[i]))
                            return false;
                    return v[0] != point_of(v) && v[0] != -point_of(v);
                };
                k.result = [point_of](const values &v) { return values {value(v[0] == point_of(v) ? 1 : 0)}; };
                k.make = [n, omega](cols w, const vars &in) {
                    typename C::input_type i;
                    i.x = in[0];
                    i.b.assign(in.begin() + 1, in.end());
                    return bind(C(w, first_column, no_columns, n, omega), i);
                };
                break;
            }
            case BIT_TIMES_POINT: {
                typedef bc::bool_scalar_multiplication<arith, curves::ed25519, policy> C;
                k.name = "bool_scalar_multiplication";
                k.widths = {9};
                k.inputs = 9;
                k.in = {edwards, {"", 1}};
                k.out = {edwards};
                k.constant = false;
                k.want_all = [](Rng &g) {
                    edwards_point p = want_edwards(g);
                    values v;
                    put_foreign(v, p.X);
                    put_foreign(v, p.Y);
                    v.push_back(value(g.below(g.chance(1, 4) ? 4 : 2)));
                    return v;
                };
                k.fits = [](const values &v) { return on_edwards(v, 0) && is_bit(v[8]); };
                k.refuses = [](const values &v) { return on_edwards(v, 0) && !is_bit(v[8]); };
                k.result = [](const values &v) {
                    if (v[8] == value(1))
                        return values(v.begin(), v.begin() + 8);
                    values zero(8, value(0));
                    zero[4] = value(1);
                    return zero;
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.T.x = {in[0], in[1], in[2], in[3]};
                    i.T.y = {in[4], in[5], in[6], in[7]};
                    i.k = in[8];
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case SCALAR_RANGE: {
                typedef bc::scalar_non_native_range<arith, curves::ed25519> C;
                k.name = "scalar_non_native_range";
                k.open = true;    // its pieces are not checked for size
                k.widths = {9};
                k.inputs = 1;
                k.constant = false;
                k.want = [](std::size_t, Rng &g) {
                    return g.chance(1, 3) ? value(integral(integral(edwards_order()) - 1 - g.below(3))) : bits_value(g, unsigned(g.range(1, 253)));
                };
                k.fits = [](const values &v) { return integral(v[0].data) < edwards_order(); };
                k.result = [](const values &v) {
                    values r;
                    for (unsigned i = 0; i < 12; i++)
                        r.push_back(value(integral((integral(v[0].data) >> (22 * i)) & integral(0x3fffff))));
                    return r;
                };
                k.make = [](cols w, const vars &in) { return bind(C(w, no_columns, no_columns), {in[0]}); };
                break;
            }
            case REDUCTION: {
                typedef bc::reduction<arith, field, policy> C;
                k.name = "reduction";
                k.open = true;    // its pieces are not checked for size
                k.widths = {9};
                k.inputs = 8;
                k.constant = false;
                k.want_all = [](Rng &g) {
                    values v;
                    for (int i = 0; i < 8; i++)
                        v.push_back(bits_value(g, 64));
                    if (g.chance(1, 2)) {
                        // a chosen remainder: the ends of the range, or where its pieces begin
                        typedef boost::multiprecision::cpp_int wide;
                        static const unsigned begins[] = {0, 13, 33, 53, 73, 93, 113, 133, 153, 173, 193, 213, 233, 252};
                        wide order(edwards_order()), times = 0;
                        unsigned bits = unsigned(g.below(259));
                        for (unsigned i = 0; i < bits; i++)
                            times = times * 2 + g.below(2);
                        wide x = g.chance(1, 2) ? wide(order - 1 - g.below(3)) : wide((wide(1) << begins[g.below(14)]) - g.below(2));
                        x += order * times;
                        for (auto &piece : v) {
                            piece = value(integral(wide(x % (wide(1) << 64))));
                            x /= wide(1) << 64;
                        }
                    }
                    return v;
                };
                k.fits = [](const values &v) {
                    for (auto &x : v)
                        if (!below_bits(x, 64))
                            return false;
                    return true;
                };
                k.result = [](const values &v) {
                    // one bit after the other, so that nothing gets long
                    integral r = 0;
                    for (unsigned i = 512; i-- > 0;) {
                        r = (r << 1) + ((integral(v[i / 64].data) >> (i % 64)) & integral(1));
                        if (r >= edwards_order())
                            r -= edwards_order();
                    }
                    return values {value(r)};
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    std::copy(in.begin(), in.end(), i.k.begin());
                    return bind(C(w, no_columns, no_columns), i);
                };
                break;
            }
            case SHA512_ROUNDS: {
                typedef bc::sha512_process<arith> C;
                k.name = "sha512_process";
                k.open = true;    // its pieces are not checked for size
                k.widths = {9};
                k.inputs = 24;
                k.in = {{"sha512", 8}};
                k.in.resize(17, {"", 1});
                k.out = {{"sha512", 8}};
                k.want = [](std::size_t, Rng &g) { return bits_value(g, 64); };
                k.fits = [](const values &v) {
                    for (auto &x : v)
                        if (!below_bits(x, 64))
                            return false;
                    return true;
                };
                k.result = [](const values &v) {
                    std::array<u64, 8> state;
                    std::array<u64, 16> words;
                    for (unsigned i = 0; i < 24; i++)
                        (i < 8 ? state[i] : words[i - 8]) = u64(integral(v[i].data));
                    values r;
                    for (u64 x : sha512_rounds(state, words))
                        r.push_back(value(integral(x)));
                    return r;
                };
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    std::copy(in.begin(), in.begin() + 8, i.input_state.begin());
                    std::copy(in.begin() + 8, in.end(), i.input_words.begin());
                    return bind(C(w, first_column, no_columns), i);
                };
                break;
            }
            default: {
                typedef bc::flexible_poseidon<arith, field> C;
                k.name = "flexible_poseidon";
                k.widths = upto(3, max_width, 3);
                k.inputs = 3;
                k.constant = false;
                k.result = poseidon_of;
                k.make = [](cols w, const vars &in) {
                    typename C::input_type i;
                    i.input_state = {in[0], in[1], in[2]};
                    return bind(C(w, no_columns, no_columns), i);
                };
            }
        }
        return k;
    }
}    // namespace comp

#endif
