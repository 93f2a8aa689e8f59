// Shared by the circuit and table harnesses: gate descriptions that are independent of how the library represents
// expressions, generators for them, and comparisons of circuits and tables by meaning.
#ifndef VERIF_PLONK_KIT_HPP
#define VERIF_PLONK_KIT_HPP

#include <algorithm>
#include <array>
#include <iomanip>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <optional>
#include <cassert>

#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/pallas.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/constraint_system.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/variable.hpp>
#include <nil/crypto3/zk/snark/arithmetization/plonk/assignment.hpp>

#include <nil/blueprint/blueprint/plonk/assignment.hpp>
#include <nil/blueprint/blueprint/plonk/circuit.hpp>

#include "sim.hpp"

namespace kit {
    using sim::i64;
    using sim::u64;
    using sim::Rng;
    using sim::Ctx;

    typedef nil::crypto3::algebra::curves::pallas::base_field_type field;
    typedef typename field::value_type value;
    typedef typename field::integral_type integral;
    typedef nil::crypto3::zk::snark::plonk_constraint_system<field> arith;
    typedef nil::blueprint::circuit<arith> circuit_t;
    typedef nil::blueprint::assignment<arith> table_t;
    typedef nil::crypto3::zk::snark::plonk_variable<value> var;
    typedef nil::crypto3::zk::snark::plonk_constraint<field> constraint;
    typedef nil::crypto3::zk::snark::plonk_copy_constraint<field> copy_constraint;
    typedef nil::crypto3::zk::snark::plonk_lookup_constraint<field> lookup_constraint;
    typedef nil::crypto3::zk::snark::plonk_lookup_table<field> lookup_table;
    typedef nil::crypto3::zk::snark::plonk_column<field> column;

    inline std::string text(const value &v) {
        std::ostringstream s;
        s << std::hex << v.data;
        return s.str();
    }
    inline std::string text(const var &v) {
        static const char *names[] = {"w", "p", "c", "s", "?"};
        return std::string(names[int(v.type) % 5]) + std::to_string(v.index) + (v.relative ? "r" : "a") + std::to_string(v.rotation);
    }

    // values: small ones, the largest field element, and spread out ones
    inline value make_value(u64 seed) {
        Rng g(seed * 0x9E3779B97F4A7C15ull + 5);
        switch (g.below(4)) {
            case 0:
                return value(g.below(4));
            case 1:
                return -value(1 + g.below(3));
            case 2:
                return value(g.next() >> 8);
            default: {
                value r = value(g.next() >> 8);
                for (int i = 0; i < 3; i++)
                    r = r * value(0x100000000ull) * value(0x100000000ull) + value(g.next() >> 8);
                return r;
            }
        }
    }

    // ---- polynomials as plain data -------------------------------------------------------------------------------
    typedef std::vector<var> monomial;
    typedef std::vector<std::pair<i64, monomial>> poly;

    inline std::string canonical(const poly &p) {
        std::map<std::string, i64> m;
        for (auto &t : p) {
            std::vector<std::string> vs;
            for (auto &v : t.second)
                vs.push_back(text(v));
            std::sort(vs.begin(), vs.end());
            std::string k;
            for (auto &v : vs)
                k += v + "*";
            m[k] += t.first;
        }
        std::string r;
        for (auto &t : m)
            if (t.second)
                r += std::to_string(t.second) + "*" + t.first + "+";
        return r;
    }

    inline value coefficient(i64 c) { return c < 0 ? -value(u64(-c)) : value(u64(c)); }

    // polynomial number k; neighbouring numbers differ in one detail only (k / 8 names the family, k % 8 the detail)
    inline poly make_poly(u64 k, unsigned cols = 6, unsigned consts = 3, unsigned sels = 2) {
        Rng g((k / 8) * 7919 + 101);
        poly p;
        unsigned terms = 1 + g.below(3);
        auto any_var = [&](Rng &r) {
            switch (r.weighted({6, 2, sels ? 1u : 0u})) {
                case 0:
                    return var(r.below(cols), i64(r.below(3)) - 1, true, var::column_type::witness);
                case 1:
                    return var(r.below(consts), i64(r.below(3)) - 1, true, var::column_type::constant);
                default:
                    return var(r.below(sels), i64(r.below(3)) - 1, true, var::column_type::selector);
            }
        };
        for (unsigned t = 0; t < terms; t++) {
            monomial m;
            unsigned deg = 1 + g.below(3);
            for (unsigned d = 0; d < deg; d++)
                m.push_back(any_var(g));
            i64 c = i64(g.below(5)) - 2;
            p.push_back({c == 0 ? 3 : c, m});
        }
        var &v = p[0].second[0];
        switch (k % 8) {
            case 1:
                v.rotation = v.rotation == 1 ? -1 : v.rotation + 1;
                break;
            case 2:
                v.index = v.index == 0 ? 1 : 0;
                break;
            case 3:
                p[0].first += p[0].first == -1 ? 3 : 1;
                break;
            case 4:
                v.type = v.type == var::column_type::witness ? var::column_type::constant :
                         v.type == var::column_type::constant && sels ? var::column_type::selector : var::column_type::witness;
                v.index %= v.type == var::column_type::selector ? sels : 2;
                break;
            case 5:
                p.push_back({1, {}});
                break;
            case 6:
                p[0].second.push_back(p[0].second.back());
                break;
            case 7:
                for (auto &t : p)
                    t.first = -t.first;
                break;
        }
        if (canonical(p).empty())
            p.push_back({1, {var(0, 0, true, var::column_type::witness)}});
        return p;
    }

    // The polynomial written as an expression.  The variant changes only the way it is written.
    inline constraint make_constraint(const poly &p, u64 variant) {
        Rng g(variant * 31 + 7);
        std::vector<std::size_t> order(p.size());
        for (std::size_t i = 0; i < order.size(); i++)
            order[i] = i;
        if (variant)
            for (std::size_t i = order.size(); i > 1; i--)
                std::swap(order[i - 1], order[g.below(i)]);
        bool first = true;
        constraint e;
        for (std::size_t i : order) {
            monomial m = p[i].second;
            if (variant)
                for (std::size_t j = m.size(); j > 1; j--)
                    std::swap(m[j - 1], m[g.below(j)]);
            bool negate = variant && !first && g.chance(1, 3);
            constraint t = constraint(coefficient(negate ? -p[i].first : p[i].first));
            for (auto &v : m)
                t = variant && g.chance(1, 3) ? constraint(v * t) : constraint(t * v);
            if (first)
                e = t;
            else if (negate)
                e = constraint(e - t);
            else
                e = variant && g.chance(1, 3) ? constraint(t + e) : constraint(e + t);
            first = false;
        }
        if (variant && g.chance(1, 4)) {
            constraint x(var(g.below(4), 0, true, var::column_type::witness));
            e = constraint(e + x - x);
        }
        if (variant && g.chance(1, 6))
            e = constraint(e * constraint(value(2)) - e);
        return e;
    }

    // ---- meaning of an expression: its value at a point chosen by the harness -------------------------------------
    inline const value &point(const var &v) {
        static std::map<std::string, value> memo;
        std::string k = text(v);
        auto it = memo.find(k);
        if (it == memo.end()) {
            u64 h = sim::fnv(k);
            value r = value(sim::splitmix(h) >> 8);
            for (int i = 0; i < 3; i++)
                r = r * value(0x100000000ull) * value(0x100000000ull) + value(sim::splitmix(h) >> 8);
            it = memo.emplace(k, r).first;
        }
        return it->second;
    }
    inline std::string meaning(const poly &p) {
        value r = value::zero();
        for (auto &t : p) {
            value x = coefficient(t.first);
            for (auto &v : t.second)
                x *= point(v);
            r += x;
        }
        return text(r);
    }
    inline std::string meaning(const constraint &e) {
        nil::crypto3::math::expression_evaluator<var> ev(e, [](const var &v) -> const value & { return point(v); });
        return text(ev.evaluate());
    }

    // ---- circuits by meaning ------------------------------------------------------------------------------------
    struct mgate {
        std::size_t selector;
        std::vector<std::string> constraints;
        bool operator==(const mgate &o) const { return selector == o.selector && constraints == o.constraints; }
        std::string key() const {
            std::string r;
            for (auto &c : constraints)
                r += c + ";";
            return r;
        }
    };
    inline std::string meaning(const lookup_constraint &c) {
        std::string r = "t" + std::to_string(c.table_id) + ":";
        for (auto &e : c.lookup_input)
            r += meaning(e) + ",";
        return r;
    }
    template<typename Gates>
    std::vector<mgate> gates_of(const Gates &gates) {
        std::vector<mgate> r;
        for (auto &g : gates) {
            mgate m {g.selector_index, {}};
            for (auto &c : g.constraints)
                m.constraints.push_back(meaning(c));
            r.push_back(m);
        }
        return r;
    }
    template<typename Gates>
    std::vector<mgate> lookup_gates_of(const Gates &gates) {
        std::vector<mgate> r;
        for (auto &g : gates) {
            mgate m {g.tag_index, {}};
            for (auto &c : g.constraints)
                m.constraints.push_back(meaning(c));
            r.push_back(m);
        }
        return r;
    }
    // constraints of a gate may be written down in any order
    inline std::string sorted_key(mgate g) {
        std::sort(g.constraints.begin(), g.constraints.end());
        return g.key();
    }
    inline bool same_gate(const mgate &a, const mgate &b) { return a.selector == b.selector && sorted_key(a) == sorted_key(b); }
    inline std::string diff(const std::vector<mgate> &got, const std::vector<mgate> &want) {
        if (got.size() != want.size())
            return "has " + std::to_string(got.size()) + " entries instead of " + std::to_string(want.size());
        for (std::size_t i = 0; i < got.size(); i++) {
            if (got[i].selector != want[i].selector)
                return "entry " + std::to_string(i) + " is on selector " + std::to_string(got[i].selector) + " instead of " +
                       std::to_string(want[i].selector);
            if (!same_gate(got[i], want[i]))
                return "entry " + std::to_string(i) + " has other constraints than requested";
        }
        return "";
    }

    // a cell by column kind, column, row
    inline var absolute(int type, std::size_t index, std::size_t row) {
        return var(index, i64(row), false, typename var::column_type(type));
    }

    inline std::string list(const std::set<std::uint32_t> &s) {
        std::string r = "{";
        for (auto x : s)
            r += std::to_string(x) + " ";
        return r + "}";
    }

    // ---- table contents -----------------------------------------------------------------------------------------
    // every column exactly as the table object holds it
    inline std::string contents(const table_t &t) {
        std::string r;
        auto col = [&](const char *n, std::size_t i, const column &c) {
            r += n + std::to_string(i) + "=";
            for (auto &x : c)
                r += text(x) + ",";
            r += "\n";
        };
        for (std::size_t i = 0; i < t.witnesses_amount(); i++)
            col("w", i, t.witness(i));
        for (std::size_t i = 0; i < t.public_inputs_amount(); i++)
            col("p", i, t.public_input(i));
        for (std::size_t i = 0; i < t.constants_amount(); i++)
            col("c", i, t.constant(i));
        for (std::size_t i = 0; i < t.selectors_amount(); i++)
            col("s", i, t.selector(i));
        for (std::size_t i = 0; i < t.shareds_amount(); i++)
            col("sh", i, t.shared(i));
        return r;
    }

    // catches std::cout while in scope
    struct cout_catcher {
        std::ostringstream buf;
        std::streambuf *old;
        cout_catcher() : old(std::cout.rdbuf(buf.rdbuf())) {}
        ~cout_catcher() { std::cout.rdbuf(old); }
    };
}    // namespace kit

#endif
