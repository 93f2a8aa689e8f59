// C05: batched component requests each get their own correct result.
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

#include "component_kit.hpp"

using namespace sim;
using namespace kit;

// a component of a user of the library, with a parameter: x + k * y
namespace user {
    struct scaled_sum : nil::blueprint::components::plonk_component<field> {
        typedef nil::blueprint::components::plonk_component<field> base;
        typedef nil::blueprint::plonk_component_manifest manifest_type;
        std::size_t k;
        static manifest_type get_manifest(std::size_t) {
            return manifest_type(std::shared_ptr<nil::blueprint::manifest_param>(new nil::blueprint::manifest_single_value_param(3)), false);
        }
        struct input_type {
            var x = var(0, 0, false), y = var(0, 0, false);
            std::vector<std::reference_wrapper<var>> all_vars() { return {x, y}; }
        };
        struct result_type {
            var output = var(0, 0, false);
            result_type(const scaled_sum &c, std::size_t row) : output(c.W(2), row, false) {}
            std::vector<std::reference_wrapper<var>> all_vars() { return {output}; }
        };
        template<typename W, typename C, typename P>
        scaled_sum(W w, C c, P p, std::size_t k_) : base(w, c, p, get_manifest(k_)), k(k_) {}
    };
    inline scaled_sum::result_type generate_assignments(const scaled_sum &c, table_t &t, const scaled_sum::input_type &in,
                                                        std::uint32_t row) {
        t.witness(c.W(0), row) = var_value(t, in.x);
        t.witness(c.W(1), row) = var_value(t, in.y);
        t.witness(c.W(2), row) = var_value(t, in.x) + value(c.k) * var_value(t, in.y);
        return scaled_sum::result_type(c, row);
    }
    inline scaled_sum::result_type generate_empty_assignments(const scaled_sum &c, table_t &t, const scaled_sum::input_type &in,
                                                              std::uint32_t row) {
        t.witness(c.W(2), row) = var_value(t, in.x) + value(c.k) * var_value(t, in.y);
        return scaled_sum::result_type(c, row);
    }
    inline std::size_t generate_gates(const scaled_sum &c, circuit_t &bp, table_t &, const scaled_sum::input_type &) {
        return bp.add_gate(constraint(var(c.W(0), 0) + var(c.W(1), 0) * value(c.k) - var(c.W(2), 0)));
    }
    inline void generate_copy_constraints(const scaled_sum &c, circuit_t &bp, table_t &, const scaled_sum::input_type &in,
                                          std::size_t row) {
        bp.add_copy_constraint({in.x, var(c.W(0), i64(row), false)});
        bp.add_copy_constraint({in.y, var(c.W(1), i64(row), false)});
    }
}    // namespace user

namespace {
    typedef nil::blueprint::circuit_proxy<arith> circuit_view;
    typedef nil::blueprint::assignment_proxy<arith> table_view;
    const unsigned batch_kinds = comp::batchable_kinds + 3;

    enum trait { any, nonzero, bit };

    struct entry {
        var v;
        value x;
        bool ready;
        trait t;
    };

    bool is_batch_variable(const var &v) { return v.index == table_t::batch_private_storage_index; }
    bool is_batch_constant(const var &v) { return v.index == table_t::batch_constant_storage_index; }

    struct C05 : Harness {
        const char *property() const override { return "C05"; }
        const char *rule() const override {
            return "a run of 3..80 operations of 1..3 callers (each on its own view of one table or all on the table) requests components from "
                   "batches (multiplication, addition, subtraction, division, division_or_zero, swap, and a component with a parameter), "
                   "from the assignment pass or from the circuit pass first, with inputs from public cells, constants and earlier results, "
                   "places components directly, copies results to cells, and finalises; a share of the runs repeats it with other values; "
                   "non-trivial: at least one request used the result of another request; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (caller, request, inputs) sequence so far"; }
        std::vector<std::string> real_components() const override {
            return {"component_batch.hpp", "assignment.hpp", "assignment_proxy.hpp", "circuit.hpp", "circuit_proxy.hpp", "gate_mover.hpp",
                    "satisfiability_check.hpp", "component.hpp", "manifest.hpp", "multiplication.hpp", "addition.hpp", "subtraction.hpp",
                    "division.hpp", "division_or_zero.hpp", "multiplication_by_constant.hpp", "flexible/swap.hpp"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions and plonk table base class (stand-in)", "random_device (simulated)",
                    "a user component with a parameter (harness)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"batches are finalised once per table object, after all requests", "a result requested from the circuit pass is also "
                    "requested from the assignment pass before finalisation", "division is not asked to divide by zero"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"switch-between-callers", "circuit-pass-first", "assignment-postponed", "allocation-failure"};
        }
        std::vector<std::string> probe_names() const override {
            return {"identical-request", "same-request-other-caller", "chained-request", "row-padded", "several-rows-in-batch", "several-batches",
                    "constant-input", "direct-component-on-batched-result", "corruption-rejected", "repeated-with-other-values",
                    "batch-of-other-view-used", "parameterised-batches"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 400000 : 40000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            i64 n = g.range(1, 3);
            s.cfg["callers"] = n;
            s.cfg["views"] = g.chance(1, 3);
            s.cfg["width"] = g.chance(1, 2) ? g.range(5, 16) : g.range(5, 8);
            s.cfg["gap"] = g.below(3);
            s.cfg["again"] = g.chance(1, 4);
            s.cfg["order"] = g.below(6);
            s.cfg["corrupt"] = g.below(1000);
            std::vector<unsigned> kinds(batch_kinds);
            for (auto &k : kinds)
                k = g.chance(1, 2) ? 1 + g.below(4) : 0;
            kinds[g.below(batch_kinds)]++;
            u64 steps = g.range(3, g.chance(1, 4) ? 80 : 20);
            bool dense = g.chance(1, 3);    // few variables, many repeated requests
            for (u64 i = 0; i < steps; i++) {
                i64 actor = g.below(u64(n));
                switch (g.weighted({3, 2, 14, 5, 3, 3, 3})) {
                    case 0:
                        if (!dense || i < 4)
                            s.add("public", {i64(g.below(100)), i64(g.below(4))});
                        break;
                    case 1:
                        s.add("constant", {actor, i64(g.below(8))});
                        break;
                    case 2: {
                        i64 back = dense ? 4 : 12;
                        s.add("request", {actor, i64(g.weighted(kinds)), i64(g.below(u64(back))), i64(g.below(u64(back))), i64(g.below(u64(back))),
                                          g.chance(1, 3), g.chance(1, 12) ? g.range(1, 60) : 0, i64(g.below(4))});
                        break;
                    }
                    case 3:
                        s.add("again", {actor, i64(g.below(20)), g.chance(1, 2)});
                        break;
                    case 4:
                        s.add("assign", {i64(g.below(6)), g.chance(1, 8) ? g.range(1, 40) : 0});
                        break;
                    case 5:
                        s.add("direct", {actor, i64(g.below(comp::SMALL_KINDS)), i64(g.below(10)), i64(g.below(10)), i64(g.below(10)),
                                         i64(g.below(8)), i64(g.below(20))});
                        break;
                    case 6:
                        s.add("copy", {actor, i64(g.below(12)), g.chance(1, 2)});
                        break;
                }
            }
            return s;
        }

        struct outcome {
            std::string circuit;
        };

        void execute(const Scenario &s, Ctx &c) override {
            outcome a = build(s, c, 0);
            if (s.get("again")) {
                outcome b = build(s, c, 1);
                c.probe("repeated-with-other-values");
                c.require(a.circuit == b.circuit, "values-in-circuit", "the circuit changed with the input values");
            }
        }

        outcome build(const Scenario &s, Ctx &c, u64 variant) {
            std::size_t n = 1 + u64(s.get("callers") - 1) % 3, W = 5 + u64(s.get("width") - 5) % 12;
            bool views = s.get("views") != 0;
            auto bp = std::make_shared<circuit_t>();
            auto tab = std::make_shared<table_t>(W, 1, 1, 40);
            std::vector<std::unique_ptr<circuit_view>> cv;
            std::vector<std::unique_ptr<table_view>> tv;
            for (std::size_t i = 0; i < n; i++) {
                cv.emplace_back(new circuit_view(bp, i));
                tv.emplace_back(new table_view(tab, i));
            }
            auto C = [&](std::size_t a) -> circuit_t & { return views ? static_cast<circuit_t &>(*cv[a]) : *bp; };
            auto T = [&](std::size_t a) -> table_t & { return views ? static_cast<table_t &>(*tv[a]) : *tab; };

            std::vector<entry> pool;
            std::size_t next_public = 0, next_row = 0, constants = 0;
            auto val = [&](u64 seed, trait t) {
                seed = seed * 2 + 1 + variant * 100003;
                if (t == bit)
                    return value((seed ^ (seed >> 3) ^ variant) & 2 ? 1 : 0);
                value x = make_value(seed);
                return t == nonzero && x.is_zero() ? value(5) : x;
            };
            auto add_public = [&](u64 seed, trait t) {
                value x = val(seed, t);
                tab->public_input(0, next_public) = x;
                pool.push_back({absolute(1, 0, next_public), x, true, t});
                next_public++;
                return pool.size() - 1;
            };
            // an entry of the pool that has the trait
            auto choose = [&](u64 k, trait t) {
                std::vector<std::size_t> ok;
                for (std::size_t i = 0; i < pool.size(); i++)
                    if (t == any || pool[i].t == t)
                        ok.push_back(i);
                if (ok.size() < 2)
                    return add_public(k + ok.size() * 11, t);
                return ok[ok.size() - 1 - k % ok.size()];
            };

            struct request {
                std::size_t actor;
                unsigned which;
                u64 param;
                std::vector<std::size_t> in;
                std::vector<std::size_t> out;
                bool assigned;
            };
            std::vector<request> requests;
            struct pending {
                std::size_t request;    // or
                std::function<void()> job;
                std::vector<std::size_t> in, out;
            };
            std::vector<pending> queue;
            std::map<std::string, std::string> by_variable;                  // result variable -> request without its caller
            std::set<std::string> asked;                                     // requests without their callers
            std::map<std::string, std::vector<std::string>> by_request;      // request with its caller -> result variables
            std::set<std::string> seen_kinds;
            u64 inter = 1;
            std::size_t last = ~0ull;

            auto kind_of = [&](unsigned which, u64 param) {
                if (which < comp::batchable_kinds)
                    return comp::small_kind(which, param);
                comp::kind k = comp::small_kind(comp::ADD, 0);
                u64 f = which - comp::batchable_kinds + 2 + param * 10;
                k.name = "scaled_sum(" + std::to_string(f) + ")";
                k.result = [f](const comp::values &v) { return comp::values {v[0] + value(f) * v[1]}; };
                return k;
            };
            auto traits_of = [&](unsigned which, bool batched) -> std::vector<trait> {
                if (batched && which >= comp::batchable_kinds)
                    return {any, any};
                switch (which) {
                    case comp::DIV:
                        return {any, nonzero};
                    case comp::SWAP:
                        return {bit, any, any};
                    case comp::MULC:
                        return {any};
                    default:
                        return {any, any};
                }
            };
            auto name_of = [&](const request &r) {
                std::string k = kind_of(r.which, r.param).name;
                for (auto i : r.in)
                    k += " " + text(pool[i].v);
                return k;
            };
            // the library call; from the assignment pass or the circuit pass
            auto call = [&](const request &r, bool from_circuit) -> comp::vars {
                table_t &t = T(r.actor);
                comp::vars in;
                for (auto i : r.in)
                    in.push_back(pool[i].v);
                auto two = [&](auto *tag) {
                    typedef std::remove_pointer_t<decltype(tag)> K;
                    typename K::input_type i {in[0], in[1]};
                    return comp::flatten(from_circuit ? t.template add_input_to_batch_circuit<K>(i) : t.template add_input_to_batch_assignment<K>(i));
                };
                switch (r.which) {
                    case comp::MUL:
                        return two((comp::mul_t *)nullptr);
                    case comp::ADD:
                        return two((comp::add_t *)nullptr);
                    case comp::SUB:
                        return two((comp::sub_t *)nullptr);
                    case comp::DIV:
                        return two((comp::div_t *)nullptr);
                    case comp::DIVZ:
                        return two((comp::divz_t *)nullptr);
                    case comp::SWAP: {
                        typename comp::swap_t::input_type i;
                        i.inp = {in[0], in[1], in[2]};
                        return comp::flatten(from_circuit ? t.template add_input_to_batch_circuit<comp::swap_t>(i) :
                                                            t.template add_input_to_batch_assignment<comp::swap_t>(i));
                    }
                    default: {
                        std::size_t f = r.which - comp::batchable_kinds + 2 + r.param * 10;
                        typename user::scaled_sum::input_type i {in[0], in[1]};
                        return comp::flatten(from_circuit ? t.template add_input_to_batch_circuit<user::scaled_sum>(i, f) :
                                                            t.template add_input_to_batch_assignment<user::scaled_sum>(i, f));
                    }
                }
            };
            // the call, possibly hit by an allocation failure and repeated
            auto robust_call = [&](const request &r, bool from_circuit, i64 fail) -> comp::vars {
                if (fail) {
                    bool hit = false;
                    comp::vars v;
                    {
                        alloc_scope scope(fail);
                        try {
                            v = call(r, from_circuit);
                        } catch (const std::bad_alloc &) {
                            hit = true;
                        }
                    }
                    if (!hit)
                        return v;
                    c.fault("allocation-failure");
                    c.event("allocation failure");
                }
                return call(r, from_circuit);
            };
            auto result_texts = [&](const comp::vars &v) {
                std::vector<std::string> r;
                for (auto &x : v)
                    r.push_back(text(x));
                return r;
            };
            auto all_ready = [&](const std::vector<std::size_t> &in) {
                for (auto i : in)
                    if (!pool[i].ready)
                        return false;
                return true;
            };
            auto check_values = [&](const request &r, const comp::vars &v) {
                for (std::size_t i = 0; i < v.size(); i++) {
                    value got = var_value(T(r.actor), v[i]);
                    c.require(got == pool[r.out[i]].x, "wrong-result",
                              name_of(r) + " gave " + text(got) + " instead of " + text(pool[r.out[i]].x));
                }
            };
            auto compare_again = [&](const request &r, const comp::vars &v) {
                auto &want = by_request.at(std::to_string(r.actor * views) + ":" + name_of(r));
                c.require(result_texts(v) == want, "identical-requests-differ", "asked again, " + name_of(r) + " gave other variables");
            };
            auto run_pending = [&](std::size_t k, i64 fail) {
                pending p = queue[k];
                queue.erase(queue.begin() + i64(k));
                if (p.job)
                    p.job();
                else {
                    request &r = requests[p.request];
                    comp::vars v = robust_call(r, false, fail);
                    compare_again(r, v);
                    r.assigned = true;
                    check_values(r, v);
                }
                for (auto i : p.out)
                    pool[i].ready = true;
            };

            for (auto &st : s.steps) {
                c.sim_steps++;
                std::size_t actor = u64(st.arg(0)) % n;
                std::string line = st.op;
                for (auto x : st.a)
                    line += " " + std::to_string(x);
                c.event(line);
                inter = fnv(line, inter);
                c.state(inter);
                if (st.op != "public" && st.op != "assign") {
                    if (last != ~0ull && last != actor)
                        c.fault("switch-between-callers");
                    last = actor;
                }
                if (st.op == "public") {
                    add_public(u64(st.arg(0)), u64(st.arg(1)) % 4 == 1 ? nonzero : u64(st.arg(1)) % 4 == 2 ? bit : any);
                } else if (st.op == "constant") {
                    // a constant is part of the circuit, so it does not vary
                    value x = make_value(u64(st.arg(1)) + 700);
                    pool.push_back({T(actor).add_batch_constant_variable(x), x, true, any});
                    constants++;
                } else if (st.op == "request") {
                    request r;
                    r.actor = actor;
                    r.which = unsigned(u64(st.arg(1)) % batch_kinds);
                    r.param = r.which < comp::batchable_kinds ? 0 : u64(st.arg(7)) % 3;
                    auto tr = traits_of(r.which, true);
                    for (std::size_t i = 0; i < tr.size(); i++)
                        r.in.push_back(choose(u64(st.arg(2 + i)), tr[i]));
                    for (auto i : r.in) {
                        bool batched = is_batch_variable(pool[i].v);
                        c.probe("chained-request", batched);
                        c.nontrivial = c.nontrivial || batched;
                        c.probe("constant-input", is_batch_constant(pool[i].v));
                        if (batched && views)
                            for (auto &q : requests)
                                c.probe("batch-of-other-view-used",
                                        q.actor != actor && std::find(q.out.begin(), q.out.end(), i) != q.out.end());
                    }
                    bool from_circuit = u64(st.arg(5)) % 2 || !all_ready(r.in);
                    std::string base = name_of(r), full = std::to_string(actor * views) + ":" + base;
                    seen_kinds.insert(std::to_string(actor * views) + kind_of(r.which, r.param).name);
                    c.probe("parameterised-batches", r.which >= comp::batchable_kinds);
                    comp::vars v = robust_call(r, from_circuit, st.arg(6));
                    auto texts = result_texts(v);
                    comp::values in;
                    for (auto i : r.in)
                        in.push_back(pool[i].x);
                    comp::values want = kind_of(r.which, r.param).result(in);
                    c.require(v.size() == want.size(), "wrong-result", base + " has " + std::to_string(v.size()) + " results");
                    auto known = by_request.find(full);
                    if (known != by_request.end()) {
                        c.probe("identical-request");
                        c.require(known->second == texts, "identical-requests-differ", "asked again, " + base + " gave other variables");
                        if (!from_circuit)
                            for (auto &q : requests)
                                if (std::to_string(q.actor * views) + ":" + name_of(q) == full) {
                                    q.assigned = true;
                                    for (auto o : q.out)
                                        pool[o].ready = true;
                                    check_values(q, v);
                                }
                        continue;
                    }
                    for (auto &t : texts) {
                        auto it = by_variable.find(t);
                        c.require(it == by_variable.end() || it->second == base, "variable-shared",
                                  "one variable is the result of " + base + " and of " + (it == by_variable.end() ? "" : it->second));
                        by_variable[t] = base;
                    }
                    c.probe("same-request-other-caller", !asked.insert(base).second);
                    by_request[full] = texts;
                    for (std::size_t i = 0; i < v.size(); i++) {
                        pool.push_back({v[i], want[i], !from_circuit, any});
                        r.out.push_back(pool.size() - 1);
                    }
                    r.assigned = !from_circuit;
                    requests.push_back(r);
                    if (from_circuit) {
                        c.fault("circuit-pass-first");
                        queue.push_back({requests.size() - 1, nullptr, r.in, r.out});
                    } else
                        check_values(r, v);
                } else if (st.op == "again") {
                    if (requests.empty())
                        continue;
                    request &r = requests[u64(st.arg(1)) % requests.size()];
                    bool from_circuit = u64(st.arg(2)) % 2 || !all_ready(r.in);
                    c.probe("identical-request");
                    comp::vars v = robust_call(r, from_circuit, 0);
                    compare_again(r, v);
                    if (!from_circuit) {
                        r.assigned = true;
                        for (auto o : r.out)
                            pool[o].ready = true;
                        check_values(r, v);
                    }
                } else if (st.op == "assign") {
                    std::vector<std::size_t> ok;
                    for (std::size_t i = 0; i < queue.size(); i++)
                        if (all_ready(queue[i].in))
                            ok.push_back(i);
                    if (!ok.empty())
                        run_pending(ok[u64(st.arg(0)) % ok.size()], st.arg(1));
                } else if (st.op == "direct") {
                    unsigned which = unsigned(u64(st.arg(1)) % comp::SMALL_KINDS);
                    comp::kind k = comp::small_kind(which, u64(st.arg(6)));
                    auto tr = traits_of(which, false);
                    std::vector<std::size_t> in;
                    comp::vars iv;
                    comp::values ix;
                    for (std::size_t i = 0; i < tr.size(); i++) {
                        in.push_back(choose(u64(st.arg(2 + i)), tr[i]));
                        iv.push_back(pool[in.back()].v);
                        ix.push_back(pool[in.back()].x);
                        c.probe("direct-component-on-batched-result", is_batch_variable(iv.back()));
                    }
                    std::size_t w = k.widths[0], off = u64(st.arg(5)) % (W - w + 1);
                    std::vector<std::size_t> cols;
                    for (std::size_t i = 0; i < w; i++)
                        cols.push_back(off + i);
                    comp::placed p = k.make(cols, iv);
                    std::size_t row = next_row;
                    next_row += p->rows();
                    comp::vars out = p->circuit(C(actor), T(actor), std::uint32_t(row));
                    comp::values want = k.result(ix);
                    std::vector<std::size_t> oi;
                    for (std::size_t i = 0; i < want.size(); i++) {
                        pool.push_back({out[i], want[i], false, any});
                        oi.push_back(pool.size() - 1);
                    }
                    table_t *t = &T(actor);
                    queue.push_back({0, [p, t, row] { p->assign(*t, std::uint32_t(row)); }, in, oi});
                    if (all_ready(in))
                        run_pending(queue.size() - 1, 0);
                    else
                        c.fault("assignment-postponed");
                } else if (st.op == "copy") {
                    if (pool.empty())
                        continue;
                    std::size_t i = pool.size() - 1 - u64(st.arg(1)) % pool.size();
                    var cell = absolute(0, u64(st.arg(1)) % W, next_row++);
                    var other = pool[i].v;
                    bool swapped = u64(st.arg(2)) % 2;
                    C(actor).add_copy_constraint(swapped ? copy_constraint(other, cell) : copy_constraint(cell, other));
                    pool.push_back({cell, pool[i].x, false, pool[i].t});
                    std::size_t out = pool.size() - 1;
                    table_t *t = &T(actor);
                    value want = pool[i].x;
                    Ctx *ctx = &c;
                    queue.push_back({0, [t, cell, other, want, ctx] {
                                         value got = var_value(*t, other);
                                         ctx->require(got == want, "wrong-result", "variable " + text(other) + " holds " + text(got));
                                         t->witness(cell.index, cell.rotation) = got;
                                     }, {i}, {out}});
                    if (pool[i].ready)
                        run_pending(queue.size() - 1, 0);
                }
            }
            while (!queue.empty()) {
                std::size_t k = 0;
                while (!all_ready(queue[k].in))
                    k++;
                run_pending(k, 0);
            }
            for (auto &e : pool)
                c.require(var_value(*tab, e.v) == e.x, "wrong-result", "variable " + text(e.v) + " holds another value before finalisation");

            // finalisation
            std::size_t start = next_row + u64(s.get("gap")) % 3, row = start;
            std::vector<column> before;
            for (std::size_t i = 0; i < W; i++)
                before.push_back(tab->witness(i));
            std::vector<std::size_t> order;
            for (std::size_t i = 0; i < (views ? n : 1); i++)
                order.push_back(i);
            for (u64 o = u64(s.get("order")), i = order.size(); i > 1; o /= i, i--)
                std::swap(order[i - 1], order[o % i]);
            for (auto a : order) {
                std::size_t next = T(a).finalize_component_batches(C(a), row);
                c.require(next >= row, "rows-wrong", "finalisation went back to row " + std::to_string(next));
                c.require(next - row <= requests.size(), "rows-wrong", "finalisation took more rows than there are requests");
                row = next;
            }
            std::set<std::size_t> result_rows;
            std::map<std::string, std::size_t> per_kind;
            std::vector<var> cells;
            for (auto &r : requests) {
                auto &m = T(r.actor).get_batch_variable_map();
                per_kind[std::to_string(r.actor * views) + kind_of(r.which, r.param).name]++;
                for (auto o : r.out) {
                    auto it = m.find(pool[o].v);
                    c.require(it != m.end(), "result-not-placed", "no cell for the result of " + name_of(r));
                    const var &cell = it->second;
                    c.require(cell.type == var::column_type::witness && !cell.relative && cell.index < W && u64(cell.rotation) >= start &&
                                  u64(cell.rotation) < row,
                              "result-not-placed", "result of " + name_of(r) + " refers to " + text(cell));
                    value got = tab->witness(cell.index, cell.rotation);
                    c.require(got == pool[o].x, "wrong-result",
                              "the cell for " + name_of(r) + " holds " + text(got) + " instead of " + text(pool[o].x));
                    cells.push_back(cell);
                }
            }
            for (auto &k : per_kind) {
                std::size_t w = 3;
                if (k.first.find("division_or_zero") != std::string::npos || k.first.find("swap") != std::string::npos)
                    w = 5;
                else if (k.first.find("division") != std::string::npos)
                    w = 4;
                c.probe("row-padded", k.second % (W / w) != 0);
                c.probe("several-rows-in-batch", k.second > W / w);
            }
            c.probe("several-batches", per_kind.size() > 1);
            for (std::size_t i = 0; i < W; i++)
                for (std::size_t j = 0; j < before[i].size() && j < start; j++)
                    c.require(tab->witness(i, j) == before[i][j], "other-cells-changed",
                              "witness " + std::to_string(i) + " row " + std::to_string(j) + " changed on finalisation");
            if (constants)
                T(order[0]).finalize_constant_batches(C(order[0]), 0);
            for (auto &cc : bp->copy_constraints())
                for (auto v : {cc.first, cc.second})
                    c.require(!is_batch_variable(v) && !is_batch_constant(v), "variable-left-over",
                              "a copy constraint still refers to batched variable " + std::to_string(v.rotation) +
                                  (is_batch_constant(v) ? " (constant)" : ""));
            auto satisfied = [&] {
                cout_catcher quiet;
                return nil::blueprint::is_satisfied(*bp, *tab);
            };
            c.require(satisfied(), "not-satisfied", "the finished table does not satisfy the circuit");
            c.event("rows " + std::to_string(row) + " gates " + std::to_string(bp->gates().size()) + " copies " +
                    std::to_string(bp->copy_constraints().size()));
            // a wrong result must be noticed
            u64 which = u64(s.get("corrupt"));
            if (!cells.empty() && !variant) {
                for (u64 k = 0; k < 2; k++) {
                    var cell = cells[(which + k * 37) % cells.size()];
                    value &x = tab->witness(cell.index, cell.rotation);
                    value old = x;
                    x = old + value(1 + which % 3);
                    c.require(!satisfied(), "wrong-result-accepted", "a wrong value in result cell " + text(cell) + " goes unnoticed");
                    tab->witness(cell.index, cell.rotation) = old;
                    c.probe("corruption-rejected");
                }
                const request &r = requests[which % requests.size()];
                for (auto i : r.in)
                    if (pool[i].v.type == var::column_type::public_input && pool[i].v.index == 0) {
                        value &x = tab->public_input(0, pool[i].v.rotation);
                        value old = x;
                        x = old + value(1);
                        c.require(!satisfied(), "wrong-input-accepted", "a request is not tied to its input " + text(pool[i].v));
                        tab->public_input(0, pool[i].v.rotation) = old;
                        c.probe("corruption-rejected");
                    }
            }
            outcome o;
            for (auto &g : gates_of(bp->gates()))
                o.circuit += std::to_string(g.selector) + ":" + sorted_key(g) + "\n";
            for (auto &cc : bp->copy_constraints())
                o.circuit += text(cc.first) + "=" + text(cc.second) + "\n";
            for (std::size_t i = 0; i < tab->selectors_amount(); i++)
                for (std::size_t j = 0; j < tab->selector(i).size(); j++)
                    if (tab->selector(i, j) != value::zero())
                        o.circuit += "s" + std::to_string(i) + "@" + std::to_string(j) + "\n";
            return o;
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C05 h;
    return sim::main(h, argc, argv);
}
