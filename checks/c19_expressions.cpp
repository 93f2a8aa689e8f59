// C19: expressions and final polynomials checked in a circuit through shared batches mean what they say.
#include "component_kit.hpp"

#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp>
#include <nil/blueprint/components/systems/snark/plonk/verifier/final_polynomial_check.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

using namespace sim;
using namespace kit;

namespace {
    namespace bc = nil::blueprint::components;
    typedef nil::blueprint::circuit_proxy<arith> circuit_view;
    typedef nil::blueprint::assignment_proxy<arith> table_view;
    typedef bc::plonk_expression_evaluation_component<field> evaluator;
    typedef bc::final_polynomial_check<arith> polynomial_check;
    typedef nil::crypto3::math::expression<var> expression;
    typedef nil::crypto3::math::term<var> term;

    // an expression as the harness sees it
    struct tree {
        enum { TERM, POW, ADD, SUB, MUL } op;
        value coeff;
        std::vector<std::size_t> vars;    // numbers of symbols
        int power;
        std::vector<tree> sub;

        value at(const std::vector<value> &x) const {
            switch (op) {
                case TERM: {
                    value r = coeff;
                    for (auto i : vars)
                        r = r * x[i];
                    return r;
                }
                case POW: {
                    value b = sub[0].at(x), r = value::one();
                    for (int i = 0; i < power; i++)
                        r = r * b;
                    return r;
                }
                case ADD:
                    return sub[0].at(x) + sub[1].at(x);
                case SUB:
                    return sub[0].at(x) - sub[1].at(x);
                default:
                    return sub[0].at(x) * sub[1].at(x);
            }
        }
        expression of(const std::vector<var> &symbols) const {
            switch (op) {
                case TERM: {
                    std::vector<var> v;
                    for (auto i : vars)
                        v.push_back(symbols[i]);
                    return expression(term(v, coeff));
                }
                case POW:
                    return sub[0].of(symbols).pow(power);
                case ADD:
                    return sub[0].of(symbols) + sub[1].of(symbols);
                case SUB:
                    return sub[0].of(symbols) - sub[1].of(symbols);
                default:
                    return sub[0].of(symbols) * sub[1].of(symbols);
            }
        }
    };

    tree draw(Rng &g, std::size_t symbols, unsigned depth) {
        tree t;
        t.power = 1;
        t.coeff = value::one();
        if (!depth || g.chance(1, 4)) {
            t.op = tree::TERM;
            if (g.chance(1, 2))
                t.coeff = g.chance(1, 4) ? -value::one() : value(1 + g.below(9));
            for (u64 n = g.below(4); n; n--)
                t.vars.push_back(g.below(symbols));
            return t;
        }
        if (g.chance(1, 5)) {
            t.op = tree::POW;
            t.power = int(g.range(1, 9));
            t.sub = {draw(g, symbols, depth - 1)};
            return t;
        }
        t.op = g.chance(1, 3) ? tree::ADD : g.chance(1, 2) ? tree::SUB : tree::MUL;
        t.sub = {draw(g, symbols, depth - 1), draw(g, symbols, depth - 1)};
        return t;
    }

    struct C19 : Harness {
        const char *property() const override { return "C19"; }
        const char *rule() const override {
            return "1..3 callers or views on one circuit and table, 1..12 requests: drawn expressions (terms, powers 1..9, sums, differences, "
                   "products, depth 0..4) over public cells and earlier results, and checks of polynomials of degree 0..8 at 1..3 pairs of points, "
                   "passes in either order and interleaved between callers, requests repeated; then the batches are placed; every third scenario "
                   "states a false polynomial value; results and inputs are changed, alone and with their copies; non-trivial: an earlier result "
                   "is used; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (caller, request, pass) sequence so far"; }
        std::vector<std::string> real_components() const override {
            return {"expression_evaluation_component.hpp", "final_polynomial_check.hpp", "component_batch.hpp", "assignment.hpp", "assignment_proxy.hpp", "circuit.hpp",
                    "circuit_proxy.hpp", "addition.hpp", "subtraction.hpp", "multiplication.hpp", "satisfiability_check.hpp"};
        }
        std::vector<std::string> stub_components() const override { return {"crypto3 field, expressions and plonk table base class (stand-in)"}; }
        std::vector<std::string> assumptions() const override {
            return {"batches are finalised once per table object, after all requests", "every request is made in both passes"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"switch-between-callers", "assignment-first", "assignment-postponed", "input-late", "false-value-stated", "result-corrupted", "value-changed-everywhere",
                    "input-corrupted"};
        }
        std::vector<std::string> probe_names() const override {
            return {"expression", "polynomial", "earlier-result-used", "requested-again", "power", "constant-expression", "bare-variable", "views", "several-rows"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 200000 : 20000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            s.cfg["callers"] = g.range(1, 3);
            s.cfg["views"] = g.chance(1, 3);
            s.cfg["width"] = g.range(3, 15);
            s.cfg["late"] = g.chance(1, 4);
            s.cfg["gap"] = g.below(4);
            s.cfg["false"] = g.chance(1, 3) ? i64(1 + g.below(1000)) : 0;
            s.cfg["corrupt"] = g.below(100000);
            u64 n = g.range(1, 12);
            for (u64 i = 0; i < n; i++)
                switch (g.below(6)) {
                    case 0:
                    case 1:
                    case 2:
                        s.add("expression", {i64(g.below(3)), i64(g.below(1000000)), g.range(0, 4), g.range(1, 5), i64(g.below(4))});
                        break;
                    case 3:
                        s.add("polynomial", {i64(g.below(3)), i64(g.below(1000000)), g.range(0, 8), g.range(1, 3), i64(g.below(4))});
                        break;
                    case 4:
                        s.add("again", {i64(g.below(3)), i64(g.below(12)), i64(g.below(4))});
                        break;
                    default:
                        s.add("finish", {i64(g.below(12))});
                }
            return s;
        }

        struct request {
            std::size_t actor;
            std::shared_ptr<evaluator> e;
            typename evaluator::input_type ei;
            std::shared_ptr<polynomial_check> p;
            typename polynomial_check::input_type pi;
            std::vector<std::size_t> in;
            std::size_t out;
            std::shared_ptr<var> seen;      // where the first pass said the result is
            bool circuit_done, assigned;
        };

        void execute(const Scenario &s, Ctx &c) override {
            cout_catcher quiet;
            std::size_t n = 1 + u64(s.get("callers") - 1) % 3, W = 3 + u64(s.get("width") - 3) % 14;
            bool views = s.get("views") != 0;
            c.probe("views", views);
            auto bp = std::make_shared<circuit_t>();
            auto tab = std::make_shared<table_t>(W, 1, 1, 40);
            std::vector<std::unique_ptr<circuit_view>> cv;
            std::vector<std::unique_ptr<table_view>> tv;
            for (std::size_t i = 0; i < n; i++) {
                cv.emplace_back(new circuit_view(bp, i));
                tv.emplace_back(new table_view(tab, i));
            }
            auto C = [&](std::size_t a) -> circuit_t & { return views ? static_cast<circuit_t &>(*cv[a]) : *bp; };
            auto T = [&](std::size_t a) -> table_t & { return views ? static_cast<table_t &>(*tv[a]) : *tab; };
            struct entry {
                var v;
                value x;
                bool ready, tied;
                std::size_t actor;
            };
            std::vector<entry> pool;
            std::size_t next_public = 0, last = ~std::size_t(0);
            u64 seen = 23;
            // inputs may become known only after circuits were made from them
            bool late = s.get("late") != 0;
            auto add_public = [&](const value &x) {
                tab->public_input(0, std::uint32_t(next_public)) = late ? value::zero() : x;
                pool.push_back({absolute(1, 0, next_public++), x, !late, false, ~std::size_t(0)});
                return pool.size() - 1;
            };
            auto arrive = [&] {
                for (auto &e : pool)
                    if (!e.ready && e.actor == ~std::size_t(0)) {
                        c.fault("input-late");
                        tab->public_input(0, std::uint32_t(e.v.rotation)) = e.x;
                        e.ready = true;
                    }
            };
            for (u64 i = 0; i < 4; i++)
                add_public(make_value(u64(s.get("corrupt")) + i * 5));
            // something this caller may use
            auto choose = [&](Rng &g, std::size_t actor) {
                if (g.chance(1, 6))
                    return add_public(make_value(g.next() >> 30));
                for (int k = 0; k < 4; k++) {
                    std::size_t i = pool.size() - 1 - g.below(g.chance(1, 2) ? std::min<std::size_t>(4, pool.size()) : pool.size());
                    if (!views || pool[i].actor == actor || pool[i].actor == ~std::size_t(0))
                        return i;
                }
                return std::size_t(0);
            };
            std::vector<std::shared_ptr<request>> all;
            auto note = [&](const std::string &what, u64 code) {
                c.event(what);
                seen = seen * 1000003 + code;
                c.state(seen);
            };
            auto pass = [&](std::shared_ptr<request> r, bool circuit) {
                if (last != ~std::size_t(0) && last != r->actor)
                    c.fault("switch-between-callers");
                last = r->actor;
                if (r->e) {
                    var v = circuit ? generate_circuit(*r->e, C(r->actor), T(r->actor), r->ei, 0).output : generate_assignments(*r->e, T(r->actor), r->ei, 0).output;
                    if (!r->seen)
                        r->seen = std::make_shared<var>(v);
                    c.require(*r->seen == v, "passes-disagree", "the result of an expression is " + text(*r->seen) + " for one pass and " + text(v) + " for another");
                    pool[r->out].v = v;
                    if (!circuit) {
                        pool[r->out].ready = true;
                        value got = var_value(T(r->actor), v);
                        c.require(got == pool[r->out].x, "wrong-result", "an expression gave " + text(got) + " instead of " + text(pool[r->out].x));
                    }
                } else if (circuit)
                    generate_circuit(*r->p, C(r->actor), T(r->actor), r->pi, 0);
                else
                    generate_assignments(*r->p, T(r->actor), r->pi, 0);
                (circuit ? r->circuit_done : r->assigned) = true;
            };
            auto ready = [&](const request &r) {
                for (auto i : r.in)
                    if (!pool[i].ready)
                        return false;
                return true;
            };
            auto finish = [&](std::shared_ptr<request> r) {
                if (!r->circuit_done)
                    pass(r, true);
                if (!r->assigned && ready(*r))
                    pass(r, false);
                return r->assigned;
            };
            auto start = [&](std::shared_ptr<request> r, unsigned order) {
                all.push_back(r);
                if (order % 2 && ready(*r)) {
                    c.fault("assignment-first");
                    pass(r, false);
                } else
                    pass(r, true);
                if (order < 2)
                    finish(r);
                else
                    c.fault("assignment-postponed");
            };
            bool lied = false;
            std::vector<std::size_t> columns, constants = {0}, none;
            for (std::size_t i = 0; i < 3; i++)
                columns.push_back(i);
            for (auto &st : s.steps) {
                if (all.size() >= 16)
                    break;
                c.sim_steps++;
                std::size_t actor = u64(st.arg(0)) % n;
                if (st.op == "expression") {
                    Rng g(u64(st.arg(1)) * 5 + 1);
                    std::size_t symbols = 1 + u64(st.arg(3) - 1) % 6;
                    tree t = draw(g, symbols, unsigned(u64(st.arg(2)) % 5));
                    auto r = std::make_shared<request>();
                    r->actor = actor;
                    r->circuit_done = r->assigned = false;
                    std::vector<var> names;
                    std::vector<value> x;
                    std::vector<std::size_t> cells;
                    for (std::size_t i = 0; i < symbols; i++) {
                        // any variable of a gate
                        auto type = g.chance(1, 4) ? var::column_type::constant : g.chance(1, 6) ? var::column_type::public_input : var::column_type::witness;
                        names.push_back(var(i / 3, int(i % 3) - 1, true, type));
                        cells.push_back(choose(g, actor));
                        x.push_back(pool[cells.back()].x);
                    }
                    // what the expression refers to, as written out
                    constraint written(t.of(names));
                    std::set<std::size_t> used;
                    std::function<void(var)> collect = [&](var v) { used.insert(std::size_t(std::find(names.begin(), names.end(), v) - names.begin())); };
                    nil::crypto3::math::expression_for_each_variable_visitor<var> visitor(collect);
                    visitor.visit(written);
                    for (std::size_t i = 0; i < symbols; i++) {
                        r->ei.variable_mapping[names[i]] = pool[cells[i]].v;
                        if (!used.count(i))
                            continue;
                        r->in.push_back(cells[i]);
                        c.probe("earlier-result-used", pool[cells[i]].v.type != var::column_type::public_input || pool[cells[i]].v.index != 0);
                        c.nontrivial = c.nontrivial || pool[cells[i]].actor != ~std::size_t(0);
                    }
                    c.probe("expression");
                    c.probe("power", t.op == tree::POW);
                    c.probe("constant-expression", used.empty());
                    r->e = std::make_shared<evaluator>(columns, constants, none, written);
                    // the result is this caller's, also if it is an input that anyone may use
                    pool.push_back({var(), t.at(x), false, false, actor});
                    r->out = pool.size() - 1;
                    note("expression of " + std::to_string(actor) + " seed " + std::to_string(st.arg(1)) + " order " + std::to_string(u64(st.arg(4)) % 4),
                         u64(st.arg(1)) * 64 + actor * 16 + u64(st.arg(4)) % 4);
                    start(r, unsigned(u64(st.arg(4)) % 4));
                    // an expression that is a variable hands that on
                    bool bare = false;
                    for (auto i : r->in)
                        bare = bare || *r->seen == pool[i].v;
                    c.probe("bare-variable", bare);
                    if (!bare)
                        for (auto i : r->in)
                            pool[i].tied = true;
                } else if (st.op == "polynomial") {
                    Rng g(u64(st.arg(1)) * 5 + 2);
                    std::size_t power = u64(st.arg(2)) % 9, lambda = 1 + u64(st.arg(3) - 1) % 3;
                    auto r = std::make_shared<request>();
                    r->actor = actor;
                    r->circuit_done = r->assigned = false;
                    std::vector<value> k;
                    auto use = [&](std::vector<var> &to, std::size_t i) {
                        to.push_back(pool[i].v);
                        r->in.push_back(i);
                        c.probe("earlier-result-used", pool[i].actor != ~std::size_t(0));
                        c.nontrivial = c.nontrivial || pool[i].actor != ~std::size_t(0);
                        return pool[i].x;
                    };
                    for (std::size_t i = 0; i <= power; i++)
                        k.push_back(use(r->pi.coefficients, choose(g, actor)));
                    for (std::size_t i = 0; i < lambda; i++) {
                        value p = use(r->pi.points, choose(g, actor));
                        for (int sign = 0; sign < 2; sign++) {
                            value y = value::zero(), at = sign ? -p : p;
                            for (auto &a : k)
                                y = y * at + a;
                            if (s.get("false") && !lied && u64(s.get("false")) % (2 * lambda) == 2 * i + unsigned(sign)) {
                                lied = true;
                                c.fault("false-value-stated");
                                y = y + value(1 + u64(s.get("false")) % 7);
                            }
                            std::size_t stated = add_public(y);
                            pool[stated].tied = true;
                            // its copy is the value for nothing else
                            use(r->pi.values, stated);
                        }
                    }
                    c.probe("polynomial");
                    r->p = std::make_shared<polynomial_check>(columns, constants, none, power, lambda);
                    note("polynomial of " + std::to_string(actor) + " seed " + std::to_string(st.arg(1)) + " degree " + std::to_string(power) + " pairs " +
                             std::to_string(lambda) + (lied ? " lie" : ""),
                         u64(st.arg(1)) * 64 + actor * 16 + 7 + power);
                    start(r, unsigned(u64(st.arg(4)) % 4));
                } else if (st.op == "again") {
                    if (all.empty())
                        continue;
                    auto &r = all[u64(st.arg(1)) % all.size()];
                    bool circuit = u64(st.arg(2)) % 2 || !ready(*r);
                    c.probe("requested-again");
                    note("again " + std::to_string(u64(st.arg(1)) % all.size()) + (circuit ? " circuit" : " assignment"), u64(st.arg(1)) * 4 + circuit);
                    pass(r, circuit);
                } else if (st.op == "finish") {
                    if (all.empty())
                        continue;
                    note("finish " + std::to_string(u64(st.arg(0)) % all.size()), u64(st.arg(0)) + 99);
                    arrive();
                    finish(all[u64(st.arg(0)) % all.size()]);
                }
            }
            arrive();
            for (bool more = true; more;) {
                more = false;
                for (auto &r : all)
                    if (!r->assigned && finish(r))
                        more = true;
            }
            for (auto &r : all)
                finish(r);
            for (auto &r : all)
                c.require(r->assigned && r->circuit_done, "harness", "a request was never finished");
            std::size_t first = u64(s.get("gap")) % 8, row = first;
            for (std::size_t a = 0; a < (views ? n : 1); a++) {
                std::size_t next = T(a).finalize_component_batches(C(a), row);
                c.require(next >= row, "rows-wrong", "finalisation went back to row " + std::to_string(next));
                row = next;
            }
            c.probe("several-rows", row > first + 3);
            T(0).finalize_constant_batches(C(0), 0);
            for (std::size_t i = 0; i < W; i++)
                tab->witness(std::uint32_t(i), std::uint32_t(row)) = value::zero();
            auto satisfied = [&] { return nil::blueprint::is_satisfied(*bp, *tab); };
            c.event("rows " + std::to_string(row) + " copies " + std::to_string(bp->copy_constraints().size()));
            if (lied) {
                c.require(!satisfied(), "false-value-accepted", "a polynomial with a false value passes the check");
                return;
            }
            c.require(satisfied(), "not-satisfied", "the finished table does not satisfy the circuit");
            std::vector<std::pair<var, std::size_t>> cells;
            for (auto &r : all) {
                if (!r->e)
                    continue;
                var v = pool[r->out].v;
                auto &m = T(r->actor).get_batch_variable_map();
                auto it = m.find(v);
                if (v.type == var::column_type::public_input && v.index == table_t::batch_private_storage_index)
                    c.require(it != m.end(), "result-not-placed", "no cell for the result " + text(v) + " of an expression");
                if (it == m.end())
                    continue;
                value got = var_value(*tab, it->second);
                c.require(got == pool[r->out].x, "wrong-result", "the cell of an expression's result holds " + text(got) + " instead of " + text(pool[r->out].x));
                if (it->second.type == var::column_type::witness)
                    cells.push_back({it->second, r->out});
            }
            typedef std::tuple<int, std::size_t, std::int64_t> place;
            std::map<place, place> parent;
            std::function<place(place)> root = [&](place p) {
                auto it = parent.find(p);
                return it == parent.end() || it->second == p ? p : it->second = root(it->second);
            };
            auto place_of = [](const var &v) { return place(int(v.type), v.index, v.rotation); };
            for (auto &cc : bp->copy_constraints())
                for (auto *v : {&cc.first, &cc.second}) {
                    parent.insert({place_of(*v), place_of(*v)});
                    parent[root(place_of(*v))] = root(place_of(cc.first));
                }
            Rng g(u64(s.get("corrupt")) * 7 + 3);
            for (int k = 0; k < 4 && !cells.empty(); k++) {
                var v = cells[g.below(cells.size())].first;
                value old = tab->witness(std::uint32_t(v.index), std::uint32_t(v.rotation)), now = old + value(1 + g.below(4));
                tab->witness(std::uint32_t(v.index), std::uint32_t(v.rotation)) = now;
                c.fault("result-corrupted");
                c.require(!satisfied(), "wrong-result-accepted", "a wrong result in " + text(v) + " goes unnoticed");
                place mine = root(place_of(v));
                std::vector<place> same = {place_of(v)};
                bool changeable = true;
                for (auto &p : parent)
                    if (root(p.first) == mine) {
                        same.push_back(p.first);
                        changeable = changeable && std::get<0>(p.first) == int(var::column_type::witness);
                    }
                if (changeable) {
                    for (auto &p : same)
                        tab->witness(std::uint32_t(std::get<1>(p)), std::uint32_t(std::get<2>(p))) = now;
                    c.fault("value-changed-everywhere");
                    c.require(!satisfied(), "wrong-value-accepted", "a wrong result in " + text(v) + " and its copies goes unnoticed");
                    for (auto &p : same)
                        tab->witness(std::uint32_t(std::get<1>(p)), std::uint32_t(std::get<2>(p))) = old;
                }
                tab->witness(std::uint32_t(v.index), std::uint32_t(v.rotation)) = old;
            }
            std::vector<std::size_t> inputs;
            for (std::size_t i = 0; i < pool.size(); i++)
                if (pool[i].tied && pool[i].v.type == var::column_type::public_input && pool[i].v.index == 0)
                    inputs.push_back(i);
            for (int k = 0; k < 2 && !inputs.empty(); k++) {
                std::size_t i = inputs[g.below(inputs.size())];
                value &x = tab->public_input(0, std::uint32_t(pool[i].v.rotation));
                value old = x;
                x = old + value(1 + g.below(4));
                c.fault("input-corrupted");
                c.require(!satisfied(), "wrong-input-accepted", "nothing is tied to input " + text(pool[i].v));
                tab->public_input(0, std::uint32_t(pool[i].v.rotation)) = old;
            }
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C19 h;
    return sim::main(h, argc, argv);
}
