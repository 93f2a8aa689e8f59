// C06: batched constants land in free cells and disturb nothing.
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

#include "plonk_kit.hpp"

using namespace sim;
using namespace kit;

namespace {
    typedef nil::blueprint::circuit_proxy<arith> circuit_view;
    typedef nil::blueprint::assignment_proxy<arith> table_view;
    const unsigned gate_kinds = 6, rows_limit = 40;

    struct C06 : Harness {
        const char *property() const override { return "C06"; }
        const char *rule() const override {
            return "a run of 2..60 operations of 1..3 provers fills one table so that it satisfies its circuit: gates and lookups reading "
                   "constants at row offsets -1..1, dynamic tables with constant columns, directly assigned constants, batched constants, "
                   "copy constraints; then finalises the constants from any start row, through a view or directly, up to three times; "
                   "non-trivial: a batched constant was placed in a column that already held cells; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (actor, operation, cell) sequence so far"; }
        std::vector<std::string> real_components() const override {
            return {"assignment.hpp", "assignment_proxy.hpp", "circuit.hpp", "circuit_proxy.hpp", "satisfiability_check.hpp", "gate_id.hpp"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions and plonk table base class (stand-in)", "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"gates and copy constraints refer to constant cells that are already assigned", "selectors are enabled with the value one",
                    "the table has a column for every selector of the circuit"};
        }
        std::vector<std::string> fault_kinds() const override { return {"switch-between-provers", "finalised-through-view"}; }
        std::vector<std::string> probe_names() const override {
            return {"gate-reads-candidate-cell", "lookup-reads-candidate-cell", "copy-reads-candidate-cell", "table-holds-candidate-cell",
                    "free-cell-between-used-ones", "column-shorter-than-start", "finalised-again", "equal-batched-constants",
                    "batched-constant-without-use"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 2000000 : 30000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            i64 n = g.range(1, 3);
            s.cfg["provers"] = n;
            s.cfg["constants"] = g.range(1, 3);
            s.cfg["gateset"] = g.below(100000);
            i64 rows = g.chance(1, 3) ? 6 : g.range(4, 30);
            std::vector<unsigned> w = {6, 5, 3, 2, 2, 5, 4, 3};
            for (auto &x : w)
                if (g.chance(1, 4))
                    x = 0;
            w[6]++;
            u64 phases = g.chance(1, 3) ? g.range(2, 3) : 1;
            for (u64 ph = 0; ph < phases; ph++) {
                u64 steps = g.range(1, ph ? 10 : (g.chance(1, 3) ? 60 : 15));
                for (u64 i = 0; i < steps; i++) {
                    i64 actor = g.below(u64(n) + 1);
                    switch (g.weighted(w)) {
                        case 0:
                            s.add("gate", {actor, i64(g.below(gate_kinds)), i64(g.below(u64(rows)))});
                            break;
                        case 1:
                            s.add("constant", {actor, i64(g.below(3)), i64(g.below(u64(rows))), i64(g.below(1000))});
                            break;
                        case 2:
                            s.add("lookup", {actor, i64(g.below(3)), i64(g.below(u64(rows))), i64(g.below(256))});
                            break;
                        case 3:
                            s.add("table_row", {actor, i64(g.below(u64(rows))), i64(g.below(1000))});
                            break;
                        case 4:
                            s.add("find", {actor, i64(g.below(u64(rows))), i64(g.below(20))});
                            break;
                        case 5:
                            s.add("copy", {actor, i64(g.below(3)), i64(g.below(u64(rows))), i64(g.below(u64(rows))), i64(g.below(2))});
                            break;
                        case 6:
                            s.add("batch", {actor, i64(g.below(30)), i64(g.below(u64(rows))), i64(g.below(3))});
                            break;
                        case 7:
                            s.add("witness", {actor, i64(g.below(u64(rows))), i64(g.below(1000))});
                            break;
                    }
                }
                s.add("finalise", {i64(g.below(u64(n) + 1)), i64(g.below(3)), g.chance(1, 2) ? 1 : g.range(1, rows)});
            }
            return s;
        }

        void execute(const Scenario &s, Ctx &c) override {
            std::size_t n = 1 + u64(s.get("provers") - 1) % 3, consts = 1 + u64(s.get("constants") - 1) % 3;
            auto bp = std::make_shared<circuit_t>();
            auto tab = std::make_shared<table_t>(4, 1, consts, gate_kinds + 5);
            std::vector<circuit_view> cv;
            std::vector<table_view> tv;
            for (std::size_t i = 0; i < n; i++) {
                cv.emplace_back(bp, i);
                tv.emplace_back(tab, i);
            }
            bp->reserve_dynamic_table("dynamic");
            bp->reserve_table("byte_range_table/full");
            std::size_t tag = bp->get_dynamic_lookup_table_selector();
            Rng gs(u64(s.get("gateset")) + 17);
            std::size_t dyn_col = gs.below(consts);
            i64 dyn_rot = gs.range(-1, 1);
            auto cst = [](std::size_t col, i64 rot) { return var(col, rot, true, var::column_type::constant); };
            lookup_table t(1, tag);
            t.append_option({constraint(cst(dyn_col, dyn_rot))});
            bp->define_dynamic_table("dynamic", t);
            bp->add_lookup_table(lookup_table(t));
            std::size_t dyn_id = bp->get_reserved_indices().at("dynamic"), byte_id = bp->get_reserved_indices().at("byte_range_table/full");

            // gate kinds: witness 0 equals a polynomial in constants and witness 1
            std::vector<poly> kinds;
            for (unsigned k = 0; k < gate_kinds; k++) {
                poly p;
                for (u64 terms = gs.range(1, 3); terms > 0; terms--) {
                    monomial m;
                    for (u64 d = gs.range(1, 2); d > 0; d--)
                        m.push_back(gs.chance(3, 4) ? cst(gs.below(consts), gs.range(-1, 1)) :
                                                      var(1, 0, true, var::column_type::witness));
                    p.push_back({gs.chance(1, 2) ? 1 : 3, m});
                }
                kinds.push_back(p);
            }
            lookup_constraint by_kind[3];
            std::pair<std::size_t, i64> by_cell[3];
            for (int k = 0; k < 3; k++) {
                by_cell[k] = {gs.below(consts), i64(k) - 1};
                by_kind[k].table_id = byte_id;
                by_kind[k].lookup_input = {constraint(cst(by_cell[k].first, by_cell[k].second))};
            }
            lookup_constraint dyn_kind;
            dyn_kind.table_id = dyn_id;
            dyn_kind.lookup_input = {constraint(var(3, 0, true, var::column_type::witness))};

            // model: cells written, why they must keep their value
            std::vector<std::map<std::size_t, value>> cell(consts);
            enum reason { by_gate, by_lookup, by_copy, by_table };
            std::map<std::pair<std::size_t, std::size_t>, std::set<int>> used;
            std::map<std::size_t, value> w[4];
            std::vector<value> table_rows;
            std::vector<value> batched;
            struct expected {
                var a, b;
                bool first_is_batched, second_is_batched;
                value x;
            };
            std::vector<expected> copies;
            std::map<std::string, value> constant_of;    // batch variable -> value
            std::vector<std::set<std::uint32_t>> rows_used(n), rows_used_sel(n);

            auto C = [&](u64 actor) -> circuit_t & { return actor % (n + 1) < n ? static_cast<circuit_t &>(cv[actor % (n + 1)]) : *bp; };
            auto T = [&](u64 actor) -> table_t & { return actor % (n + 1) < n ? static_cast<table_t &>(tv[actor % (n + 1)]) : *tab; };
            auto known = [&](std::size_t col, std::size_t row) { return cell[col].count(row) > 0; };
            auto column_size = [&](std::size_t col) { return cell[col].empty() ? 0 : cell[col].rbegin()->first + 1; };
            auto at = [&](std::size_t col, std::size_t row) {
                auto it = cell[col].find(row);
                return it == cell[col].end() ? value::zero() : it->second;
            };
            auto set_constant = [&](u64 actor, std::size_t col, std::size_t row, const value &x) {
                T(actor).constant(col, row) = x;
                cell[col][row] = x;
            };
            auto set_witness = [&](u64 actor, unsigned col, std::size_t row, const value &x) {
                T(actor).witness(col, row) = x;
                w[col][row] = x;
            };
            auto wit = [&](unsigned col, std::size_t row) {
                auto it = w[col].find(row);
                return it == w[col].end() ? value::zero() : it->second;
            };
            // a cell that something is about to rely on
            auto rely = [&](u64 actor, std::size_t col, std::size_t row, reason why) {
                if (!known(col, row))
                    set_constant(actor, col, row, make_value(row * 7 + col));
                used[{col, row}].insert(why);
            };
            u64 inter = 1, last = ~0ull;
            unsigned finalised = 0;
            for (auto &st : s.steps) {
                c.sim_steps++;
                u64 actor = u64(st.arg(0)) % (n + 1);
                if (last != ~0ull && last != actor)
                    c.fault("switch-between-provers");
                last = actor;
                inter = mix(fnv(st.op, inter), actor * 1000 + u64(st.arg(1)) * 64 + u64(st.arg(2)));
                c.state(inter);
                c.event(st.op + " " + std::to_string(actor) + " " + std::to_string(st.arg(1)) + " " + std::to_string(st.arg(2)) + " " +
                        std::to_string(st.arg(3)));
                if (st.op == "gate") {
                    std::size_t row = u64(st.arg(2)) % rows_limit;
                    auto &p = kinds[u64(st.arg(1)) % gate_kinds];
                    bool fits = true;
                    for (auto &m : p)
                        for (auto &v : m.second)
                            fits = fits && (v.type == var::column_type::witness || i64(row) + v.rotation >= 0);
                    if (!fits)
                        continue;
                    value x = value::zero();
                    bool uses_w1 = false;
                    for (auto &m : p) {
                        value y = coefficient(m.first);
                        for (auto &v : m.second) {
                            if (v.type == var::column_type::constant) {
                                if (!known(v.index, row + v.rotation))
                                    set_constant(actor, v.index, row + v.rotation, make_value(row * 5 + 1));
                                y = y * at(v.index, row + v.rotation);
                            } else {
                                y = y * wit(1, row);
                                uses_w1 = true;
                            }
                        }
                        x = x + y;
                    }
                    if (w[0].count(row) && w[0][row] != x)
                        continue;
                    if (uses_w1 && !w[1].count(row))
                        set_witness(actor, 1, row, value::zero());
                    poly whole = p;
                    whole.push_back({-1, {var(0, 0, true, var::column_type::witness)}});
                    set_witness(actor, 0, row, x);
                    T(actor).enable_selector(C(actor).add_gate(std::vector<constraint> {make_constraint(whole, 0)}), row);
                    for (auto &m : p)
                        for (auto &v : m.second)
                            if (v.type == var::column_type::constant)
                                used[{v.index, row + v.rotation}].insert(by_gate);
                } else if (st.op == "constant") {
                    std::size_t col = u64(st.arg(1)) % consts, row = u64(st.arg(2)) % rows_limit;
                    if (!used.count({col, row}))
                        set_constant(actor, col, row, make_value(u64(st.arg(3))));
                } else if (st.op == "witness") {
                    std::size_t row = u64(st.arg(1)) % rows_limit;
                    if (!w[1].count(row))
                        set_witness(actor, 1, row, make_value(u64(st.arg(2))));
                } else if (st.op == "lookup") {
                    unsigned k = u64(st.arg(1)) % 3;
                    std::size_t row = u64(st.arg(2)) % rows_limit;
                    if (i64(row) + by_cell[k].second < 0)
                        continue;
                    std::size_t col = by_cell[k].first, r = row + by_cell[k].second;
                    value x = value(u64(st.arg(3)) % 256);
                    if (used.count({col, r})) {
                        bool byte = false;
                        for (u64 b = 0; b < 256; b++)
                            byte = byte || at(col, r) == value(b);
                        if (!byte)
                            continue;
                    } else
                        set_constant(actor, col, r, x);
                    rely(actor, col, r, by_lookup);
                    T(actor).enable_selector(C(actor).add_lookup_gate(std::vector<lookup_constraint> {by_kind[k]}), row);
                } else if (st.op == "table_row") {
                    std::size_t row = u64(st.arg(1)) % rows_limit;
                    if (i64(row) + dyn_rot < 0)
                        continue;
                    std::size_t r = row + dyn_rot;
                    if (!known(dyn_col, r))
                        set_constant(actor, dyn_col, r, make_value(u64(st.arg(2))));
                    rely(actor, dyn_col, r, by_table);
                    T(actor).enable_selector(tag, row);
                    table_rows.push_back(at(dyn_col, r));
                } else if (st.op == "find") {
                    std::size_t row = u64(st.arg(1)) % rows_limit;
                    if (table_rows.empty() || w[3].count(row))
                        continue;
                    set_witness(actor, 3, row, table_rows[u64(st.arg(2)) % table_rows.size()]);
                    T(actor).enable_selector(C(actor).add_lookup_gate(std::vector<lookup_constraint> {dyn_kind}), row);
                } else if (st.op == "copy") {
                    std::size_t col = u64(st.arg(1)) % consts, row = u64(st.arg(2)) % rows_limit, wr = u64(st.arg(3)) % rows_limit;
                    if (!known(col, row))
                        set_constant(actor, col, row, make_value(row + 3));
                    if (w[2].count(wr) && w[2][wr] != at(col, row))
                        continue;
                    rely(actor, col, row, by_copy);
                    set_witness(actor, 2, wr, at(col, row));
                    var a = absolute(0, 2, wr), b = absolute(2, col, row);
                    if (u64(st.arg(4)) % 2)
                        std::swap(a, b);
                    C(actor).add_copy_constraint({a, b});
                    copies.push_back({a, b, false, false, at(col, row)});
                } else if (st.op == "batch") {
                    value x = make_value(u64(st.arg(1)));
                    std::size_t wr = u64(st.arg(2)) % rows_limit;
                    bool again = std::find(batched.begin(), batched.end(), x) != batched.end();
                    c.probe("equal-batched-constants", again);
                    if (!again)
                        batched.push_back(x);
                    var v = T(actor).add_batch_constant_variable(x);
                    auto it = constant_of.find(text(v));
                    c.require(it == constant_of.end() || it->second == x, "variable-shared", "one variable stands for two batched constants");
                    constant_of[text(v)] = x;
                    if (u64(st.arg(3)) % 3 == 0 || (w[2].count(wr) && w[2][wr] != x)) {
                        c.probe("batched-constant-without-use");
                        continue;
                    }
                    set_witness(actor, 2, wr, x);
                    var a = absolute(0, 2, wr), b = v;
                    if (u64(st.arg(3)) % 3 == 2)
                        std::swap(a, b);
                    C(actor).add_copy_constraint({a, b});
                    copies.push_back({a, b, a == v, b == v, x});
                } else if (st.op == "finalise") {
                    std::size_t col = u64(st.arg(1)) % consts, start = 1 + (u64(st.arg(2)) - 1) % rows_limit;
                    finalised++;
                    c.probe("finalised-again", finalised > 1);
                    if (actor < n)
                        c.fault("finalised-through-view");
                    c.probe("column-shorter-than-start", column_size(col) <= start && !batched.empty());
                    bool gap = false, seen = false;
                    if (!batched.empty()) {
                        for (std::size_t r = start; r < column_size(col); r++) {
                            auto it = used.find({col, r});
                            if (it != used.end()) {
                                c.probe("gate-reads-candidate-cell", it->second.count(by_gate));
                                c.probe("lookup-reads-candidate-cell", it->second.count(by_lookup));
                                c.probe("copy-reads-candidate-cell", it->second.count(by_copy));
                                c.probe("table-holds-candidate-cell", it->second.count(by_table));
                            } else
                                gap = gap || (r > start && r + 1 < column_size(col));
                            seen = true;
                        }
                        c.nontrivial = c.nontrivial || seen;
                        c.probe("free-cell-between-used-ones", gap);
                    }
                    std::vector<column> before[3];
                    auto snapshot = [&](std::vector<column> *b) {
                        for (std::size_t i = 0; i < tab->witnesses_amount(); i++)
                            b[0].push_back(tab->witness(i));
                        for (std::size_t i = 0; i < consts; i++)
                            b[1].push_back(tab->constant(i));
                        for (std::size_t i = 0; i < tab->selectors_amount(); i++)
                            b[2].push_back(tab->selector(i));
                    };
                    snapshot(before);
                    std::vector<std::set<std::uint32_t>> used_before;
                    for (auto &v : tv)
                        used_before.push_back(v.get_used_rows());
                    T(actor).finalize_constant_batches(C(actor), col, start);
                    std::vector<column> after[3];
                    snapshot(after);
                    for (int k : {0, 2})
                        for (std::size_t i = 0; i < before[k].size(); i++)
                            c.require(before[k][i] == after[k][i], "other-cells-changed",
                                      std::string(k ? "selector" : "witness") + " column " + std::to_string(i) + " changed");
                    for (std::size_t i = 0; i < consts; i++) {
                        auto &b = before[1][i], &a = after[1][i];
                        c.require(a.size() >= b.size(), "constant-changed", "a constant column became shorter");
                        for (std::size_t r = 0; r < a.size(); r++) {
                            if (a[r] == (r < b.size() ? b[r] : value::zero()))
                                continue;
                            c.require(i == col && r >= start, "constant-changed",
                                      "constant " + std::to_string(i) + " row " + std::to_string(r) + " changed; constants were to go to column " +
                                          std::to_string(col) + " from row " + std::to_string(start));
                            c.require(!used.count({i, r}), "used-constant-overwritten",
                                      "constant " + std::to_string(i) + " row " + std::to_string(r) + " is in use and got another value");
                            cell[i][r] = a[r];
                        }
                    }
                    // every batched constant is in the column
                    for (auto &x : batched) {
                        bool found = false;
                        for (std::size_t r = 0; r < after[1][col].size(); r++)
                            found = found || after[1][col][r] == x;
                        c.require(found, "constant-missing", "batched constant " + text(x) + " is not in constant column " + std::to_string(col));
                    }
                    auto &cc = bp->copy_constraints();
                    c.require(cc.size() == copies.size(), "copy-constraints-wrong", "number of copy constraints changed");
                    for (std::size_t i = 0; i < copies.size(); i++) {
                        auto &e = copies[i];
                        const var *now[2] = {&cc[i].first, &cc[i].second}, *was[2] = {&e.a, &e.b};
                        bool is_batched[2] = {e.first_is_batched, e.second_is_batched};
                        for (int k = 0; k < 2; k++) {
                            if (!is_batched[k]) {
                                c.require(*now[k] == *was[k], "copy-constraints-wrong",
                                          "copy constraint " + std::to_string(i) + " refers to another cell than before");
                                continue;
                            }
                            c.require(now[k]->type == var::column_type::constant && now[k]->index == col && !now[k]->relative &&
                                          now[k]->rotation >= 0 && u64(now[k]->rotation) < after[1][col].size(),
                                      "copy-constraints-wrong",
                                      "copy constraint " + std::to_string(i) + " does not refer to a constant cell: " + text(*now[k]));
                            c.require(after[1][col][now[k]->rotation] == e.x, "wrong-constant",
                                      "copy constraint " + std::to_string(i) + " refers to a cell with another value");
                            used[{col, std::size_t(now[k]->rotation)}].insert(by_copy);
                        }
                        e.a = cc[i].first;
                        e.b = cc[i].second;
                        e.first_is_batched = e.second_is_batched = false;
                    }
                    for (std::size_t v = 0; v < n; v++)
                        for (auto r : tv[v].get_used_rows())
                            c.require(used_before[v].count(r) || (v == actor && r >= start && r < start + 2 * rows_limit + batched.size() &&
                                                                  r < after[1][col].size()),
                                      "rows-claimed", "view " + std::to_string(v) + " claims row " + std::to_string(r) + " after finalisation");
                    c.event("sizes " + std::to_string(after[1][col].size()));
                    bool ok;
                    {
                        cout_catcher quiet;
                        ok = nil::blueprint::is_satisfied(*bp, *tab);
                    }
                    c.require(ok, "not-satisfied", "the table satisfied its circuit before finalisation and no longer does");
                }
            }
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C06 h;
    return sim::main(h, argc, argv);
}
