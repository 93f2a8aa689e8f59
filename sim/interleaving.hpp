// The world of the component checks: callers place components of many kinds on one circuit and table, in any order.
// A check derives from Interleaving and says which kinds there are.
#ifndef VERIF_INTERLEAVING_HPP
#define VERIF_INTERLEAVING_HPP

#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

#include "component_kit.hpp"

using namespace sim;
using namespace kit;

namespace {
    typedef nil::blueprint::circuit_proxy<arith> circuit_view;
    typedef nil::blueprint::assignment_proxy<arith> table_view;

    struct entry {
        var v;
        value x;
        bool ready;
    };

    struct Interleaving : Harness {
        // kind number `which` of kinds(), as large as fits on max_width columns
        virtual unsigned kinds() const = 0;
        virtual comp::kind kind_of(unsigned which, u64 param, std::size_t max_width) const = 0;
        // kinds that promise to refuse some inputs
        virtual std::vector<unsigned> strict_kinds() const = 0;
        virtual std::vector<std::string> tables() const { return {}; }
        virtual std::size_t most_steps() const { return 30; }
        virtual std::size_t least_width() const { return 10; }
        virtual std::size_t selectors() const { return 400; }
        // of one component
        virtual std::size_t most_gates() const { return 6; }

        std::vector<std::string> fault_kinds() const override {
            return {"switch-between-callers", "assignment-postponed", "circuit-postponed", "passes-by-different-callers", "output-corrupted",
                    "input-corrupted", "value-changed-everywhere", "inadmissible-input", "trace-bent-to-inadmissible-input", "lie-covered-up"};
        }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            i64 n = g.range(1, 3);
            s.cfg["callers"] = n;
            s.cfg["views"] = g.chance(1, 2);
            s.cfg["width"] = g.chance(1, 2) ? 15 : g.range(i64(least_width()), 30);
            s.cfg["start"] = g.chance(1, 3) ? 0 : g.range(1, 20);
            s.cfg["corrupt"] = g.below(100000);
            s.cfg["inadmissible"] = g.chance(1, 3) ? g.range(1, 100000) : 0;
            std::vector<unsigned> odds(kinds());
            bool focused = g.chance(1, 2);
            for (auto &k : odds)
                k = focused ? (g.chance(1, 8) ? 3 : 0) : 1;
            odds[g.below(kinds())] += 2;
            u64 steps = g.range(1, g.chance(1, 3) ? i64(most_steps()) : i64(most_steps() / 3));
            for (u64 i = 0; i < steps; i++) {
                if (i && g.chance(1, 5)) {
                    s.add("job", {i64(g.below(8))});
                    continue;
                }
                // caller of the circuit pass, caller of the assignment pass
                i64 a = g.below(u64(n)), b = g.chance(2, 3) ? a : i64(g.below(u64(n)));
                s.add("place", {a, b, i64(g.weighted(odds)), i64(g.below(focused ? 6 : 400)), i64(g.below(1000)), i64(g.below(1000000)),
                                g.chance(1, 2) ? 0 : i64(g.below(6)), i64(g.below(8)), g.chance(1, 4)});
            }
            return s;
        }

        void execute(const Scenario &s, Ctx &c) override {
            std::size_t n = 1 + u64(s.get("callers") - 1) % 3, W = least_width() + u64(s.get("width") - i64(least_width())) % (31 - least_width());
            bool views = s.get("views") != 0;
            const std::size_t constants = 3;
            auto bp = std::make_shared<circuit_t>();
            auto tab = std::make_shared<table_t>(W, 1, constants, selectors());
            std::vector<std::unique_ptr<circuit_view>> cv;
            std::vector<std::unique_ptr<table_view>> tv;
            for (std::size_t i = 0; i < n; i++) {
                cv.emplace_back(new circuit_view(bp, i));
                tv.emplace_back(new table_view(tab, i));
            }
            for (auto &t : tables())
                bp->reserve_table(t);
            auto C = [&](std::size_t a) -> circuit_t & { return views ? static_cast<circuit_t &>(*cv[a]) : *bp; };
            auto T = [&](std::size_t a) -> table_t & { return views ? static_cast<table_t &>(*tv[a]) : *tab; };

            std::vector<entry> pool;
            std::map<std::string, std::vector<std::size_t>> bundles;    // where values that belong together start
            std::size_t next_public = 0;
            auto add_public = [&](const value &x) {
                tab->public_input(0, next_public) = x;
                pool.push_back({absolute(1, 0, next_public++), x, true});
                return pool.size() - 1;
            };
            struct instance {
                comp::placed p;
                comp::kind k;
                std::string name;
                std::size_t row, constant;
                std::vector<std::size_t> cols, in, out;
                std::size_t circuit_actor, assign_actor;
                bool circuit_done = false, assign_done = false, peek = false;
            };
            std::vector<instance> all;
            std::map<unsigned, std::set<std::string>> names;
            // where the next component goes
            std::size_t shelf = u64(s.get("start")) % 64, shelf_height = 0, shelf_col = 0;
            std::vector<char> shelf_constant(constants, 0);
            c.probe("first-row-not-zero", shelf > 0);

            auto all_ready = [&](const instance &x) {
                for (auto i : x.in)
                    if (!pool[i].ready)
                        return false;
                return true;
            };
            auto check_results = [&](const instance &x, const comp::vars &v, table_t &t, bool full, const char *pass) {
                c.require(v.size() == x.out.size(), "wrong-result",
                          x.name + " has " + std::to_string(v.size()) + " results instead of " + std::to_string(x.out.size()));
                for (std::size_t i = 0; i < v.size(); i++) {
                    c.require(v[i].type == pool[x.out[i]].v.type && v[i].index == pool[x.out[i]].v.index && v[i].rotation == pool[x.out[i]].v.rotation,
                              "passes-disagree", x.name + " names " + text(pool[x.out[i]].v) + " as result " + std::to_string(i) + " and " + text(v[i]) +
                                                     " in the " + pass);
                    if (full) {
                        value got = var_value(t, v[i]);
                        if (x.k.accepts)
                            continue;
                        c.require(got == pool[x.out[i]].x, "wrong-result",
                                  x.name + " at row " + std::to_string(x.row) + ": result " + std::to_string(i) + " is " + text(got) + " instead of " +
                                      text(pool[x.out[i]].x) + " after the " + pass);
                    }
                }
            };
            auto snapshot = [&] {
                std::vector<column> r;
                for (std::size_t i = 0; i < W; i++)
                    r.push_back(tab->witness(i));
                for (std::size_t i = 0; i < constants; i++)
                    r.push_back(tab->constant(i));
                return r;
            };
            auto check_isolation = [&](const instance &x, const std::vector<column> &before, const char *pass) {
                auto after = snapshot();
                for (std::size_t i = 0; i < W + constants; i++)
                    for (std::size_t r = 0; r < after[i].size(); r++) {
                        bool own = r >= x.row && r < x.row + x.p->rows() &&
                                   (i == W + x.constant || std::find(x.cols.begin(), x.cols.end(), i) != x.cols.end());
                        if (!own)
                            c.require(after[i][r] == (r < before[i].size() ? before[i][r] : value::zero()), "other-cells-changed",
                                      x.name + " at row " + std::to_string(x.row) + " with " + std::to_string(x.p->rows()) + " rows changed " +
                                          (i >= W ? "constant " + std::to_string(i - W) : "witness " + std::to_string(i)) + " row " + std::to_string(r) +
                                          " in the " + pass);
                    }
            };
            auto run_circuit = [&](instance &x) {
                auto before = snapshot();
                comp::vars v = x.p->circuit(C(x.circuit_actor), T(x.circuit_actor), std::uint32_t(x.row));
                check_results(x, v, T(x.circuit_actor), false, "circuit pass");
                check_isolation(x, before, "circuit pass");
                x.circuit_done = true;
            };
            // several answers are right: take the one it gave
            auto take_answer = [&](const instance &x, const comp::vars &v, table_t &t) {
                comp::values in, out;
                for (auto i : x.in)
                    in.push_back(pool[i].x);
                for (auto &o : v)
                    out.push_back(var_value(t, o));
                c.require(x.k.accepts(in, out), "wrong-result", x.name + " at row " + std::to_string(x.row) + " answers " + text(out[0]));
                for (std::size_t i = 0; i < out.size(); i++)
                    pool[x.out[i]].x = out[i];
            };
            auto run_assign = [&](instance &x) {
                auto before = snapshot();
                comp::vars v;
                if (x.peek) {
                    // only the results, on a copy of the table
                    table_t copy(*tab);
                    if (x.p->peek(copy, std::uint32_t(x.row), v)) {
                        c.probe("peeked-result");
                        c.require(v.size() == x.out.size(), "wrong-result", x.name + " has " + std::to_string(v.size()) + " results");
                        for (std::size_t i = 0; i < v.size(); i++)
                            c.require(x.k.accepts || var_value(copy, v[i]) == pool[x.out[i]].x, "wrong-result",
                                      x.name + ": result " + std::to_string(i) + " alone is " + text(var_value(copy, v[i])) + " instead of " +
                                          text(pool[x.out[i]].x));
                    }
                }
                v = x.p->assign(T(x.assign_actor), std::uint32_t(x.row));
                check_results(x, v, T(x.assign_actor), true, "assignment pass");
                if (x.k.accepts)
                    take_answer(x, v, T(x.assign_actor));
                check_isolation(x, before, "assignment pass");
                x.assign_done = true;
                for (auto o : x.out)
                    pool[o].ready = true;
            };
            auto satisfied = [&](std::string *why = nullptr) {
                cout_catcher quiet;
                bool ok = nil::blueprint::is_satisfied(*bp, *tab);
                if (why)
                    *why = quiet.buf.str().substr(0, 200);
                return ok;
            };
            // the component on free cells; false if it cannot be asked this
            auto prepare = [&](unsigned which, u64 param, u64 width, u64 seed, u64 layout, bool admissible, instance &x) {
                comp::kind k = kind_of(which, param, W);
                if (k.widths.empty())
                    return false;
                std::size_t w = k.widths[width % k.widths.size()];
                Rng g(seed * 31 + which);
                comp::values xs;
                bool fits = false;
                u64 base = pool.size();
                for (int attempt = 0; attempt < 12 && !fits; attempt++) {
                    xs.clear();
                    x.in.clear();
                    std::vector<comp::bundle> in = k.in;
                    if (in.empty())
                        in.assign(k.inputs, {"", 1});
                    comp::values wanted = k.want_all ? k.want_all(g) : comp::values();
                    for (auto &b : in) {
                        auto &starts = bundles[b.tag];
                        std::size_t from = ~std::size_t(0);
                        if (attempt < 8 && admissible && g.chance(1, 2)) {
                            if (!b.tag[0] && base)
                                from = base - 1 - g.below(std::min<u64>(base, 30));
                            else if (b.tag[0] && !starts.empty())
                                from = starts[starts.size() - 1 - g.below(std::min<u64>(starts.size(), 10))];
                        }
                        for (std::size_t i = 0; i < b.size; i++) {
                            std::size_t j = xs.size();
                            x.in.push_back(from == ~std::size_t(0) ? from : from + i);
                            xs.push_back(from != ~std::size_t(0)                      ? pool[from + i].x :
                                         !admissible && !b.tag[0] && g.chance(1, 2) ? make_value(g.next() >> 20) :
                                         k.want_all                                 ? wanted[j] :
                                                                                      k.want(j, g));
                        }
                    }
                    fits = admissible ? k.fits(xs) : k.refuses(xs);
                    if (fits) {
                        std::size_t j = 0;
                        for (auto &b : in)
                            for (std::size_t i = 0; i < b.size; i++, j++)
                                if (x.in[j] == ~std::size_t(0)) {
                                    x.in[j] = add_public(xs[j]);
                                    if (!i && b.tag[0] && admissible)
                                        bundles[b.tag].push_back(x.in[j]);
                                }
                    }
                }
                if (!fits)
                    return false;
                comp::vars iv;
                for (auto i : x.in) {
                    iv.push_back(pool[i].v);
                    c.probe("chained", i < base && pool[i].v.type == var::column_type::witness);
                    c.nontrivial = c.nontrivial || (i < base && pool[i].v.type == var::column_type::witness);
                }
                for (std::size_t i = 0; i < w; i++)
                    x.cols.push_back(i);
                x.k = k;
                x.name = k.name;
                x.constant = (seed / 11) % constants;
                comp::first_column = {x.constant};
                std::size_t rows = k.make(x.cols, iv)->rows();
                bool beside = layout % 2 && shelf_col && shelf_col + w <= W && rows <= shelf_height && !(k.constant && shelf_constant[x.constant]);
                std::size_t off;
                if (beside) {
                    off = shelf_col;
                    c.probe("side-by-side");
                } else {
                    shelf += shelf_height + (layout / 2 % 2 ? layout / 4 % 3 : 0);
                    shelf_height = rows;
                    shelf_constant.assign(constants, 0);
                    off = layout % 2 ? 0 : (seed / 7) % (W - w + 1);
                }
                shelf_col = off + w;
                shelf_constant[x.constant] = shelf_constant[x.constant] || k.constant;
                if (layout % 2 || (seed / 13) % 3)
                    for (auto &col : x.cols)
                        col += off;
                else {
                    // the row to itself: any columns in any order
                    std::vector<std::size_t> order(W);
                    for (std::size_t i = 0; i < W; i++)
                        order[i] = i;
                    Rng pick(seed * 17 + 5);
                    for (std::size_t i = W; i > 1; i--)
                        std::swap(order[i - 1], order[pick.below(i)]);
                    std::copy(order.begin(), order.begin() + w, x.cols.begin());
                    shelf_col = W;
                    c.probe("scattered-columns");
                }
                c.probe("other-constant-column", k.constant && x.constant > 0);
                x.row = shelf;
                x.p = k.make(x.cols, iv);
                c.require(x.p->rows() == rows, "rows-differ", x.name + " needs " + std::to_string(rows) + " rows or " + std::to_string(x.p->rows()));
                c.probe("multi-row-component", rows > 1);
                c.probe("lookup-component", !k.tables.empty());
                if (admissible) {
                    comp::values want = k.result(xs);
                    // the result variables are known from the component's first pass; see below
                    for (auto &v : want) {
                        pool.push_back({var(0, 0, false), v, false});
                        x.out.push_back(pool.size() - 1);
                    }
                    std::size_t at = 0;
                    for (auto &b : k.out) {
                        bundles[b.tag].push_back(x.out[at]);
                        at += b.size;
                    }
                }
                auto &seen = names[which];
                c.probe("same-kind-other-parameters", !seen.empty() && !seen.count(k.name));
                seen.insert(k.name);
                return true;
            };

            u64 inter = 1;
            std::size_t last = ~0ull;
            // a component whose passes are both postponed has no result variables yet, so nothing can use them
            for (auto &st : s.steps) {
                c.sim_steps++;
                std::string line = st.op;
                for (auto v : st.a)
                    line += " " + std::to_string(v);
                inter = fnv(line, inter);
                c.state(inter);
                c.event(line);
                if (st.op == "job") {
                    std::vector<std::pair<std::size_t, bool>> jobs;
                    for (std::size_t i = 0; i < all.size(); i++) {
                        if (!all[i].circuit_done)
                            jobs.push_back({i, true});
                        if (!all[i].assign_done && all_ready(all[i]))
                            jobs.push_back({i, false});
                    }
                    if (jobs.empty())
                        continue;
                    auto j = jobs[u64(st.arg(0)) % jobs.size()];
                    j.second ? run_circuit(all[j.first]) : run_assign(all[j.first]);
                    continue;
                }
                std::size_t postponed = 0;
                for (auto &x : all)
                    postponed += !x.circuit_done;
                if (all.size() > 40 || bp->gates().size() + most_gates() * (postponed + 2) > selectors())
                    continue;
                std::size_t a = u64(st.arg(0)) % n, b = u64(st.arg(1)) % n;
                if (last != ~0ull && last != a)
                    c.fault("switch-between-callers");
                last = a;
                instance x;
                if (!prepare(unsigned(u64(st.arg(2)) % kinds()), u64(st.arg(3)), u64(st.arg(4)), u64(st.arg(5)), u64(st.arg(7)), true, x))
                    continue;
                c.event(x.name + " row " + std::to_string(x.row) + " columns " + std::to_string(x.cols.front()) + ".." +
                        std::to_string(x.cols.back()) + " rows " + std::to_string(x.p->rows()));
                x.circuit_actor = a;
                x.assign_actor = b;
                x.peek = st.arg(8) != 0;
                if (a != b)
                    c.fault("passes-by-different-callers");
                u64 mode = x.k.accepts ? 0 : u64(st.arg(6)) % 6;
                if (x.k.circuit_first && (mode == 1 || mode == 3))
                    mode = 4;
                // its answer is only known once given: nothing it needs may be missing
                if (x.k.accepts && !all_ready(x))
                    for (auto &y : all)
                        if (!y.assign_done)
                            run_assign(y);
                // result variables come from whichever pass runs first
                std::size_t gates = bp->gates().size();
                bool assign_first = mode == 1 || mode == 3;
                if (assign_first && all_ready(x)) {
                    auto before = snapshot();
                    comp::vars v = x.p->assign(T(b), std::uint32_t(x.row));
                    c.require(v.size() == x.out.size(), "wrong-result", x.name + " has " + std::to_string(v.size()) + " results");
                    for (std::size_t i = 0; i < v.size(); i++)
                        pool[x.out[i]].v = v[i];
                    check_results(x, v, T(b), true, "assignment pass");
                    check_isolation(x, before, "assignment pass");
                    x.assign_done = true;
                    for (auto o : x.out)
                        pool[o].ready = true;
                    if (mode == 3)
                        c.fault("circuit-postponed");
                    else
                        run_circuit(x);
                } else {
                    auto before = snapshot();
                    comp::vars v = x.p->circuit(C(a), T(a), std::uint32_t(x.row));
                    c.require(v.size() == x.out.size(), "wrong-result", x.name + " has " + std::to_string(v.size()) + " results");
                    for (std::size_t i = 0; i < v.size(); i++)
                        pool[x.out[i]].v = v[i];
                    check_isolation(x, before, "circuit pass");
                    x.circuit_done = true;
                    if (!x.k.accepts && (mode >= 4 || !all_ready(x)))
                        c.fault("assignment-postponed");
                    else
                        run_assign(x);
                    c.probe("same-gate-reused", bp->gates().size() == gates);
                }
                all.push_back(x);
            }
            for (auto &x : all)
                if (!x.circuit_done)
                    run_circuit(x);
            for (auto &x : all)
                if (!x.assign_done)
                    run_assign(x);
            // every component still holds its results
            for (auto &x : all)
                for (auto o : x.out)
                    c.require(var_value(*tab, pool[o].v) == pool[o].x, "wrong-result", x.name + " lost its result");
            auto pad = [&] {
                for (std::size_t i = 0; i < W; i++)
                    tab->witness(std::uint32_t(i), std::uint32_t(shelf + shelf_height + 2)) = value::zero();
                for (std::size_t i = 0; i < constants; i++)
                    tab->constant(std::uint32_t(i), std::uint32_t(shelf + shelf_height + 2)) = value::zero();
            };
            pad();
            std::string why;
            bool fine = satisfied(&why);
            c.require(fine, "not-satisfied", "the finished table does not satisfy the circuit: " + why);
            c.event("gates " + std::to_string(bp->gates().size()) + " copies " + std::to_string(bp->copy_constraints().size()));

            Rng g(u64(s.get("corrupt")) * 7 + 3);
            for (int k = 0; k < 3 && !all.empty(); k++) {
                auto &x = all[g.below(all.size())];
                if (!x.out.empty()) {
                    var v = pool[x.out[g.below(x.out.size())]].v;
                    if (v.type == var::column_type::witness) {
                        value old = tab->witness(v.index, v.rotation);
                        tab->witness(v.index, v.rotation) = old + value(1 + g.below(4));
                        c.fault("output-corrupted");
                        c.require(!satisfied(), "wrong-output-accepted",
                                  x.name + ": a wrong value in output cell " + text(v) + " goes unnoticed");
                        tab->witness(v.index, v.rotation) = old;
                    }
                }
                if (!x.in.empty()) {
                    var v = pool[x.in[g.below(x.in.size())]].v;
                    if (v.type == var::column_type::public_input) {
                        value old = tab->public_input(0, v.rotation);
                        tab->public_input(0, v.rotation) = old + value(1 + g.below(4));
                        c.fault("input-corrupted");
                        c.require(!satisfied(), "wrong-input-accepted", x.name + " is not tied to its input " + text(v));
                        tab->public_input(0, v.rotation) = old;
                    }
                }
            }
            // a prover who changes a value everywhere the copy constraints tie it
            typedef std::tuple<int, std::size_t, std::int64_t> place;
            std::map<place, place> parent;
            std::function<place(place)> root = [&](place p) {
                auto it = parent.find(p);
                return it == parent.end() || it->second == p ? p : it->second = root(it->second);
            };
            auto place_of = [](const var &v) { return place(int(v.type), v.index, v.rotation); };
            std::map<place, std::vector<place>> tied;
            auto tie = [&] {
                parent.clear();
                tied.clear();
                for (auto &cc : bp->copy_constraints())
                    for (auto *v : {&cc.first, &cc.second}) {
                        parent.insert({place_of(*v), place_of(*v)});
                        parent[root(place_of(*v))] = root(place_of(cc.first));
                    }
                for (auto &p : parent)
                    tied[root(p.first)].push_back(p.first);
            };
            tie();
            const int in_witness = int(var::column_type::witness), in_public = int(var::column_type::public_input);
            auto cell = [&](const place &p) -> value & {
                return std::get<0>(p) == in_witness ? tab->witness(std::uint32_t(std::get<1>(p)), std::uint32_t(std::get<2>(p))) :
                                                      tab->public_input(std::uint32_t(std::get<1>(p)), std::uint32_t(std::get<2>(p)));
            };
            for (int k = 0; k < 4 && !all.empty(); k++) {
                auto &x = all[g.below(all.size())];
                std::vector<std::pair<place, value>> undo;
                std::string what;
                for (u64 m = 1 + g.chance(1, 3); m > 0; m--) {
                    bool output = !x.out.empty() && g.chance(1, 2);
                    auto &from = output ? x.out : x.in;
                    if (from.empty())
                        continue;
                    var v = pool[from[g.below(from.size())]].v;
                    std::vector<place> cells = tied[root(place_of(v))];
                    if (cells.empty())
                        cells.push_back(place_of(v));
                    bool free = true;
                    for (auto &p : cells)
                        free = free && (std::get<0>(p) == in_witness || std::get<0>(p) == in_public);
                    if (!free)
                        continue;
                    value old = cell(cells[0]), now;
                    switch (g.below(5)) {
                        case 0:
                            now = value::one() - old;
                            break;
                        case 1:
                            now = value::zero();
                            break;
                        case 2:
                            now = pool[g.below(pool.size())].x;
                            break;
                        case 3:
                            now = make_value(g.next() >> 20);
                            break;
                        default:
                            now = old + value(1 + g.below(4));
                    }
                    for (auto &p : cells) {
                        undo.push_back({p, cell(p)});
                        cell(p) = now;
                    }
                    what += text(v) + " = " + text(now) + " ";
                }
                for (auto &y : all) {
                    comp::values is, os;
                    for (auto i : y.in)
                        is.push_back(var_value(*tab, pool[i].v));
                    for (auto o : y.out)
                        os.push_back(var_value(*tab, pool[o].v));
                    bool wrong = y.k.fits(is) ? (y.k.accepts ? !y.k.accepts(is, os) : y.k.result(is) != os) : y.k.refuses && y.k.refuses(is);
                    if (!wrong)
                        continue;
                    c.fault("value-changed-everywhere");
                    c.require(!satisfied(), "wrong-value-accepted",
                              y.name + " at row " + std::to_string(y.row) + " accepts " + what + "wherever copied");
                    break;
                }
                for (auto u = undo.rbegin(); u != undo.rend(); ++u)
                    cell(u->first) = u->second;
            }
            // a prover who changes a value and then every other cell of the component that would give it away
            struct occurrence {
                const constraint *what;
                std::size_t row;
                std::vector<place> in;    // free values it depends on
            };
            auto touched_by = [&](const instance &x, std::vector<occurrence> &occurrences, std::map<place, std::vector<std::size_t>> &where,
                                  std::map<place, std::vector<place>> &cells) {
                auto own = [&](const place &p) {
                    return std::get<0>(p) == in_witness && std::get<2>(p) >= std::int64_t(x.row) && std::get<2>(p) < std::int64_t(x.row + x.p->rows()) &&
                           std::find(x.cols.begin(), x.cols.end(), std::get<1>(p)) != x.cols.end();
                };
                for (auto &gate : bp->gates()) {
                    const auto &sel = static_cast<const table_t &>(*tab).selector(gate.selector_index);
                    for (std::size_t r = x.row ? x.row - 1 : 0; r <= x.row + x.p->rows() && r < sel.size(); r++) {
                        if (sel[r].is_zero())
                            continue;
                        for (auto &q : gate.constraints) {
                            occurrence o {&q, r, {}};
                            bool mine = false;
                            nil::crypto3::math::expression_for_each_variable_visitor<var> visitor([&](const var &v) {
                                if (v.type != var::column_type::witness)
                                    return;
                                place p(in_witness, v.index, v.relative ? std::int64_t(r) + v.rotation : v.rotation);
                                mine = mine || own(p);
                                place k = root(p);
                                if (!cells.count(k)) {
                                    auto it = tied.find(k);
                                    auto &list = cells[k] = it == tied.end() ? std::vector<place> {p} : it->second;
                                    if (!std::all_of(list.begin(), list.end(), own))
                                        list.clear();
                                }
                                if (!cells[k].empty() && std::find(o.in.begin(), o.in.end(), k) == o.in.end())
                                    o.in.push_back(k);
                            });
                            visitor.visit(q);
                            if (!mine)
                                continue;
                            for (auto &k : o.in)
                                where[k].push_back(occurrences.size());
                            occurrences.push_back(o);
                        }
                    }
                }
            };
            auto cover_up = [&](const std::vector<occurrence> &occurrences, std::map<place, std::vector<std::size_t>> &where,
                                std::map<place, std::vector<place>> &cells, std::set<place> fixed, Rng &g, std::vector<std::pair<place, value>> &undo) {
                auto set = [&](const place &k, const value &v) {
                    for (auto &p : cells[k])
                        cell(p) = v;
                };
                auto holds = [&](std::size_t i) { return occurrences[i].what->evaluate(occurrences[i].row, *tab).is_zero(); };
                std::set<std::size_t> broken;
                for (std::size_t i = 0; i < occurrences.size(); i++)
                    if (!holds(i))
                        broken.insert(i);
                const bool forward = g.chance(1, 2);
                for (int step = 0; step < 200 && !broken.empty(); step++) {
                    // rather where there is no choice
                    std::size_t best = ~std::size_t(0);
                    std::vector<place> choice;
                    bool any = g.chance(1, 8);
                    for (auto i : broken) {
                        std::vector<place> open;
                        for (auto &k : occurrences[i].in)
                            if (!fixed.count(k))
                                open.push_back(k);
                        if (open.empty())
                            return false;
                        if (best == ~std::size_t(0) || (any || open.size() == choice.size() ? g.chance(1, 2) : open.size() < choice.size())) {
                            best = i;
                            choice = open;
                        }
                    }
                    bool solved = false;
                    if (forward) {
                        // rather the cell that the constraint computes from the others
                        std::vector<place> computed;
                        for (auto &k : choice) {
                            value old = cell(cells[k][0]), f[3];
                            for (int v = 0; v < 3; v++) {
                                set(k, value(v));
                                f[v] = occurrences[best].what->evaluate(occurrences[best].row, *tab);
                            }
                            set(k, old);
                            value slope = f[1] - f[0];
                            if (f[2] - f[1] == slope && (slope == value::one() || slope == -value::one()))
                                computed.push_back(k);
                        }
                        if (!computed.empty())
                            choice = computed;
                    }
                    while (!solved && !choice.empty()) {
                        std::size_t j = g.below(choice.size());
                        place k = choice[j];
                        choice.erase(choice.begin() + j);
                        value old = cell(cells[k][0]), f[3];
                        for (int v = 0; v < 3; v++) {
                            set(k, value(v));
                            f[v] = occurrences[best].what->evaluate(occurrences[best].row, *tab);
                        }
                        value slope = f[1] - f[0], now;
                        if (f[2] - f[1] == slope && !slope.is_zero()) {
                            now = -f[0] * slope.inversed();
                        } else if (f[2] - f[1] != slope && (f[0].is_zero() || f[1].is_zero() || f[2].is_zero())) {
                            std::vector<int> roots;
                            for (int v = 0; v < 3; v++)
                                if (f[v].is_zero())
                                    roots.push_back(v);
                            now = value(roots[g.below(roots.size())]);
                        } else {
                            set(k, old);
                            continue;
                        }
                        undo.push_back({k, old});
                        set(k, now);
                        fixed.insert(k);
                        for (auto i : where[k])
                            holds(i) ? (void)broken.erase(i) : (void)broken.insert(i);
                        solved = true;
                    }
                    if (!solved)
                        return false;
                }
                return broken.empty();
            };
            for (int k = 0; k < 3 && !all.empty(); k++) {
                auto &x = all[all.size() - 1 - g.below(std::min<std::size_t>(all.size(), 4))];
                if (x.k.open || x.out.empty())
                    continue;
                std::vector<occurrence> occurrences;
                std::map<place, std::vector<std::size_t>> where;
                std::map<place, std::vector<place>> cells;
                touched_by(x, occurrences, where, cells);
                std::vector<place> targets, inside;
                for (auto o : x.out)
                    if (cells.count(root(place_of(pool[o].v))) && !cells[root(place_of(pool[o].v))].empty())
                        targets.push_back(root(place_of(pool[o].v)));
                for (auto &p : cells)
                    if (!p.second.empty())
                        inside.push_back(p.first);
                if (targets.empty())
                    continue;
                for (int attempt = 0; attempt < 6; attempt++) {
                    auto &from = g.chance(1, 4) ? inside : targets;
                    place start = from[g.below(from.size())];
                    std::vector<std::pair<place, value>> undo;
                    value old = cell(cells[start][0]), now = g.chance(1, 3) ? value::one() - old :
                                                             g.chance(1, 2) ? old + value(1 + g.below(3)) :
                                                             g.chance(1, 2) ? old - value(1) :
                                                                              make_value(g.next() >> 20);
                    if (now == old)
                        continue;
                    undo.push_back({start, old});
                    for (auto &p : cells[start])
                        cell(p) = now;
                    c.fault("lie-covered-up");
                    std::set<place> fixed;
                    if (g.chance(1, 2))
                        fixed.insert(start);
                    if (g.chance(1, 4) && !where[start].empty()) {
                        // something moved from one part of a sum to another
                        auto &sum = occurrences[where[start][g.below(where[start].size())]];
                        place to = sum.in[g.below(sum.in.size())];
                        if (to != start) {
                            value before = cell(cells[to][0]), f[3];
                            for (int v = 0; v < 3; v++) {
                                for (auto &p : cells[to])
                                    cell(p) = value(v);
                                f[v] = sum.what->evaluate(sum.row, *tab);
                            }
                            value slope = f[1] - f[0], after = before;
                            if (f[2] - f[1] == slope && !slope.is_zero()) {
                                after = -f[0] * slope.inversed();
                                fixed.insert(start);
                                fixed.insert(to);
                                c.probe("moved-within-a-sum");
                                undo.push_back({to, before});
                            }
                            for (auto &p : cells[to])
                                cell(p) = after;
                        }
                    }
                    bool covered = cover_up(occurrences, where, cells, fixed, g, undo), wrong = false;
                    if (covered) {
                        comp::values is, os;
                        for (auto i : x.in)
                            is.push_back(var_value(*tab, pool[i].v));
                        for (auto o : x.out)
                            os.push_back(var_value(*tab, pool[o].v));
                        wrong = x.k.accepts ? !x.k.accepts(is, os) : x.k.result(is) != os;
                    }
                    c.probe("several-cells-repaired", undo.size() > 2);
                    if (wrong)
                        c.require(!satisfied(), "covered-lie-accepted",
                                  x.name + " at row " + std::to_string(x.row) + " accepts a false result that the prover covers up in " +
                                      std::to_string(undo.size()) + " cells, starting from " + std::to_string(std::get<1>(start)) + ", " +
                                      std::to_string(std::get<2>(start)));
                    for (auto u = undo.rbegin(); u != undo.rend(); ++u)
                        for (auto &p : cells[u->first])
                            cell(p) = u->second;
                }
            }
            u64 bad = u64(s.get("inadmissible"));
            if (bad) {
                instance x;
                auto strict = strict_kinds();
                if (!strict.empty() && prepare(strict[bad % strict.size()], bad / 2, bad / 3, bad, 0, false, x)) {
                    c.event("inadmissible " + x.name);
                    c.fault("inadmissible-input");
                    bool refused = false, circuit_made = false;
                    try {
                        x.p->circuit(C(0), T(0), std::uint32_t(x.row));
                        circuit_made = true;
                        x.p->assign(T(0), std::uint32_t(x.row));
                    } catch (const std::exception &) {
                        refused = true;
                    }
                    pad();
                    c.require(refused || !satisfied(), "inadmissible-accepted", x.name + " accepts an input that is out of range");
                    if (!refused && !x.k.open) {
                        tie();
                        std::vector<occurrence> occurrences;
                        std::map<place, std::vector<std::size_t>> where;
                        std::map<place, std::vector<place>> cells;
                        touched_by(x, occurrences, where, cells);
                        for (int attempt = 0; attempt < 6; attempt++) {
                            std::vector<std::pair<place, value>> undo;
                            c.fault("lie-covered-up");
                            bool covered = cover_up(occurrences, where, cells, {}, g, undo);
                            c.probe("several-cells-repaired", undo.size() > 1);
                            if (covered)
                                c.require(!satisfied(), "inadmissible-accepted",
                                          x.name + " accepts an input that is out of range when the prover repairs " +
                                              std::to_string(undo.size()) + " cells");
                            for (auto u = undo.rbegin(); u != undo.rend(); ++u)
                                for (auto &p : cells[u->first])
                                    cell(p) = u->second;
                        }
                    }
                    // the trace of an admissible input, bent to fit the other
                    comp::values good, is;
                    bool known = false, assigned = false;
                    for (int attempt = 0; attempt < 12 && !known && !x.k.open; attempt++) {
                        good.clear();
                        if (x.k.want_all)
                            good = x.k.want_all(g);
                        else
                            for (std::size_t j = 0; j < x.in.size(); j++)
                                good.push_back(x.k.want(j, g));
                        known = x.k.fits(good);
                    }
                    if (known && circuit_made) {
                        for (std::size_t j = 0; j < x.in.size(); j++) {
                            is.push_back(var_value(*tab, pool[x.in[j]].v));
                            cell(place_of(pool[x.in[j]].v)) = good[j];
                        }
                        try {
                            x.p->assign(T(0), std::uint32_t(x.row));
                            assigned = true;
                        } catch (const std::exception &) {
                        }
                    }
                    if (assigned) {
                        pad();
                        tie();
                        std::vector<occurrence> occurrences;
                        std::map<place, std::vector<std::size_t>> where;
                        std::map<place, std::vector<place>> cells;
                        touched_by(x, occurrences, where, cells);
                        for (std::size_t j = 0; j < x.in.size(); j++) {
                            place k = place_of(pool[x.in[j]].v);
                            cell(k) = is[j];
                            for (auto &p : tied[root(k)])
                                if (std::get<0>(p) == in_witness || std::get<0>(p) == in_public)
                                    cell(p) = is[j];
                        }
                        for (int attempt = 0; attempt < 6; attempt++) {
                            std::vector<std::pair<place, value>> undo;
                            c.fault("trace-bent-to-inadmissible-input");
                            if (cover_up(occurrences, where, cells, {}, g, undo))
                                c.require(!satisfied(), "inadmissible-accepted",
                                          x.name + " accepts an input that is out of range when the prover bends the trace of another in " +
                                              std::to_string(undo.size()) + " cells");
                            for (auto u = undo.rbegin(); u != undo.rend(); ++u)
                                for (auto &p : cells[u->first])
                                    cell(p) = u->second;
                        }
                    }
                }
            }
        }
    };
}    // namespace

#endif
