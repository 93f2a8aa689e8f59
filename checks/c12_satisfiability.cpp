// C12: a table is accepted exactly when it satisfies its circuit.
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

#include "plonk_kit.hpp"

using namespace sim;
using namespace kit;

namespace {
    typedef nil::blueprint::circuit_proxy<arith> circuit_view;
    typedef nil::blueprint::assignment_proxy<arith> table_view;
    const std::size_t witnesses = 12, publics = 1, constants = 3, rows_limit = 24, own_rows = 9;
    const unsigned gate_kinds = 6, lookup_kinds = 5;
    const std::size_t selectors = gate_kinds + lookup_kinds + 6;

    value own_cell(std::size_t col, std::size_t row) { return col ? value(row * row + 2) : value(3 * row + 1); }

    // "part" names some rows of the table only
    class own_table : public nil::crypto3::zk::snark::lookup_table_definition<field> {
    public:
        own_table() : nil::crypto3::zk::snark::lookup_table_definition<field>("own") {
            this->subtables["full"] = {{0, 1}, 0, own_rows - 1};
            this->subtables["part"] = {{0, 1}, 2, 5};
            this->subtables["second"] = {{1}, 0, own_rows - 1};
            this->subtables["swapped"] = {{1, 0}, 0, own_rows - 1};
        }
        virtual void generate() {
            this->_table.assign(2, {});
            for (std::size_t c = 0; c < 2; c++)
                for (std::size_t i = 0; i < own_rows; i++)
                    this->_table[c].push_back(own_cell(c, i));
        }
        virtual std::size_t get_columns_number() { return 2; }
        virtual std::size_t get_rows_number() { return own_rows; }
    };

    struct sub {
        std::string name;
        std::vector<std::size_t> cols;
        std::size_t begin, end;
    };
    const std::vector<sub> &subs() {
        static const std::vector<sub> s = {
            {"full", {0, 1}, 0, own_rows - 1}, {"part", {0, 1}, 2, 5}, {"second", {1}, 0, own_rows - 1}, {"swapped", {1, 0}, 0, own_rows - 1}};
        return s;
    }

    struct output {    // rest + out, or rest - out
        poly rest;
        var out;
    };
    struct lookup_model {
        int table;    // 0..3 a subtable of own, 4 dynamic
        std::vector<output> inputs;
    };

    struct C12 : Harness {
        const char *property() const override { return "C12"; }
        const char *rule() const override {
            return "a run builds, through 1..3 provers' views or directly, a circuit of gates, lookups into static, partial and dynamic "
                   "tables and copy constraints together with a table that satisfies it, then corrupts up to 8 cells of any kind and "
                   "repairs some; after each stage the verdict is compared with an evaluation done by the harness, for the whole table "
                   "and for each view; non-trivial: at least one corruption before a verdict; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (operation, cell, verdict) sequence so far"; }
        std::vector<std::string> real_components() const override {
            return {"satisfiability_check.hpp", "circuit.hpp", "assignment.hpp", "circuit_proxy.hpp", "assignment_proxy.hpp", "lookup_library.hpp"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions and plonk table base class (stand-in)", "lookup table packing (entries added by the harness)",
                    "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"lookup tables of the circuit are listed in order of their indexes (as packing leaves them)",
                    "cells named by copy constraints exist", "one public input column (further ones stand for shared values)",
                    "the number of inputs of a lookup equals the width of its table"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"corrupt-witness", "corrupt-public-input", "corrupt-constant", "corrupt-selector", "cell-repaired"};
        }
        std::vector<std::string> probe_names() const override {
            return {"accepted", "rejected", "harmless-corruption-accepted", "gate-broken", "lookup-broken", "dynamic-lookup-broken",
                    "copy-broken", "only-partial-table-breaks", "selector-beyond-written-rows", "view-accepted", "view-rejected",
                    "accepted-after-repair"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 1500000 : 30000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            i64 n = g.range(1, 3);
            s.cfg["provers"] = n;
            s.cfg["kinds"] = g.below(100000);
            s.cfg["static_first"] = g.below(2);
            i64 rows = g.chance(1, 3) ? 4 : g.range(3, 20);
            std::vector<unsigned> w = {8, 6, 4, 5, 3};
            for (auto &x : w)
                if (g.chance(1, 4))
                    x = 0;
            w[g.below(5)] += 2;
            auto row = [&] { return i64(g.below(u64(rows))) + 1; };
            u64 steps = g.range(1, g.chance(1, 4) ? 40 : 12);
            for (u64 i = 0; i < steps; i++) {
                i64 actor = g.below(u64(n) + 1);
                switch (g.weighted(w)) {
                    case 0:
                        s.add("gate", {actor, i64(g.below(gate_kinds)), row(), i64(g.below(1000))});
                        break;
                    case 1:
                        s.add("lookup", {actor, i64(g.below(lookup_kinds)), row(), i64(g.below(own_rows))});
                        break;
                    case 2:
                        s.add("table_row", {actor, row(), i64(g.below(1000))});
                        break;
                    case 3:
                        s.add("copy", {actor, i64(g.below(3)), i64(g.below(12)), row(), i64(g.below(3)), i64(g.below(12)), row()});
                        break;
                    case 4:
                        s.add("write", {actor, i64(g.below(3)), i64(g.below(12)), row(), i64(g.below(1000))});
                        break;
                }
            }
            s.add("verdict", {});
            for (u64 ph = g.range(1, 3); ph > 0; ph--) {
                for (u64 k = g.chance(1, 4) ? g.range(2, 8) : 1; k > 0; k--) {
                    i64 actor = g.below(u64(n) + 1);
                    if (g.chance(1, 8))
                        s.add("misdirect", {actor, i64(g.below(20)), i64(g.below(own_rows))});
                    else if (g.chance(1, 3))
                        s.add("corrupt_used", {actor, i64(g.below(200)), i64(g.below(5))});
                    else if (g.chance(1, 4))
                        s.add("corrupt", {actor, 3, i64(g.below(selectors)), g.range(0, rows + 3), i64(g.below(5))});
                    else
                        s.add("corrupt", {actor, i64(g.below(3)), i64(g.below(12)), g.range(0, rows + 1), i64(g.below(5))});
                }
                s.add("verdict", {});
                if (g.chance(1, 2)) {
                    s.add("repair", {i64(g.below(u64(n) + 1)), i64(g.below(2))});
                    s.add("verdict", {});
                }
            }
            return s;
        }

        struct cellid {
            int type;
            std::size_t col, row;
            bool operator<(const cellid &o) const { return std::tie(type, col, row) < std::tie(o.type, o.col, o.row); }
        };

        void execute(const Scenario &s, Ctx &c) override {
            std::size_t n = 1 + u64(s.get("provers") - 1) % 3;
            auto bp = std::make_shared<circuit_t>();
            auto tab = std::make_shared<table_t>(witnesses, publics, constants, selectors);
            std::vector<circuit_view> cv;
            std::vector<table_view> tv;
            for (std::size_t i = 0; i < n; i++) {
                cv.emplace_back(bp, i);
                tv.emplace_back(tab, i);
            }
            auto C = [&](u64 a) -> circuit_t & { return a % (n + 1) < n ? static_cast<circuit_t &>(cv[a % (n + 1)]) : *bp; };
            auto T = [&](u64 a) -> table_t & { return a % (n + 1) < n ? static_cast<table_t &>(tv[a % (n + 1)]) : *tab; };
            Rng gs(u64(s.get("kinds")) + 3);
            bp->register_lookup_table(std::make_shared<own_table>());
            auto reserve_static = [&] {
                for (auto &x : subs())
                    bp->reserve_table("own/" + x.name);
            };
            if (u64(s.get("static_first")) % 2)
                reserve_static();
            bp->reserve_dynamic_table("dynamic");
            if (u64(s.get("static_first")) % 2 == 0)
                reserve_static();

            auto rel = [](int type, std::size_t col, i64 rot) { return var(col, rot, true, typename var::column_type(type)); };
            auto any_input = [&](bool allow_public) {
                switch (gs.weighted({5, 2, allow_public ? 1u : 0u})) {
                    case 0:
                        return rel(0, 2 + gs.below(4), gs.range(-1, 1));
                    case 1:
                        return rel(2, gs.below(constants), gs.range(-1, 1));
                    default:
                        return rel(1, gs.below(publics), gs.range(-1, 1));
                }
            };
            auto any_rest = [&](unsigned most) {
                poly p;
                for (u64 t = gs.range(most ? 1 : 0, most); t > 0; t--) {
                    monomial m;
                    for (u64 d = gs.range(1, 2); d > 0; d--)
                        m.push_back(any_input(false));
                    p.push_back({gs.chance(1, 2) ? 1 : -2, m});
                }
                if (gs.chance(1, 3))
                    p.push_back({gs.range(1, 5), {}});
                return p;
            };
            // dynamic table: two options of two columns
            std::size_t tag = bp->get_dynamic_lookup_table_selector();
            std::vector<std::vector<output>> options;
            for (int o = 0; o < 2; o++)
                options.push_back({{{}, rel(0, 8, o ? 1 : 0)}, {any_rest(1), rel(0, 9, o ? -1 : 0)}});
            auto whole = [](const output &o, i64 sign) {
                poly p = o.rest;
                p.push_back({sign, {o.out}});
                return p;
            };
            {
                lookup_table t(2, tag);
                for (auto &o : options)
                    t.append_option({make_constraint(whole(o[0], 1), 0), make_constraint(whole(o[1], 1), 1)});
                bp->define_dynamic_table("dynamic", t);
            }
            std::vector<std::vector<output>> gates(gate_kinds);
            for (auto &k : gates) {
                k.push_back({any_rest(3), rel(0, 0, gs.range(-1, 1))});
                if (gs.chance(1, 3))
                    k.push_back({any_rest(2), rel(0, 1, 0)});
            }
            std::vector<std::vector<lookup_model>> lookups(lookup_kinds);
            for (unsigned k = 0; k < lookup_kinds; k++) {
                std::size_t many = gs.chance(1, 3) ? 2 : 1;
                for (std::size_t i = 0; i < many; i++) {
                    lookup_model m;
                    m.table = i ? int(gs.below(5)) : int(k);
                    std::size_t width = m.table == 4 ? 2 : subs()[m.table].cols.size();
                    std::size_t base = i ? 10 : 6;
                    for (std::size_t j = 0; j < width; j++)
                        m.inputs.push_back({any_rest(1), rel(0, base + j, gs.range(-1, 1))});
                    lookups[k].push_back(m);
                }
            }
            std::map<std::string, std::size_t> ids;
            for (auto &x : bp->get_reserved_indices())
                ids[x.first] = x.second;
            // packing: one entry per reserved table, in order of the indexes
            for (std::size_t id = 1; id <= ids.size(); id++) {
                if (ids["dynamic"] == id)
                    bp->add_lookup_table(lookup_table(bp->get_dynamic_table_definition("dynamic")->lookup_table));
                else {
                    lookup_table t(1, selectors - 1);
                    t.append_option({constraint(rel(2, 0, 0))});
                    bp->add_lookup_table(std::move(t));
                }
            }

            std::set<cellid> frozen;
            std::map<std::size_t, std::size_t> gate_of, lookup_of;    // selector -> kind
            struct pair {
                cellid a, b;
            };
            std::vector<pair> copies;
            std::map<cellid, value> original;
            std::vector<std::pair<std::size_t, std::size_t>> placed;    // lookups: kind, row
            std::vector<std::pair<value, value>> table_rows;
            bool corrupted = false, repaired = false;

            auto column_at = [&](int type, std::size_t col) -> const column & {
                const table_t &t = *tab;
                switch (type) {
                    case 0:
                        return t.witness(std::uint32_t(col));
                    case 1:
                        return t.public_input(std::uint32_t(col));
                    case 2:
                        return t.constant(std::uint32_t(col));
                    default:
                        return t.selector(std::uint32_t(col));
                }
            };
            auto read = [&](const cellid &x) {
                auto &col = column_at(x.type, x.col);
                return x.row < col.size() ? col[x.row] : value::zero();
            };
            auto put = [&](u64 actor, const cellid &x, const value &v) {
                table_t &t = T(actor);
                switch (x.type) {
                    case 0:
                        t.witness(x.col, x.row) = v;
                        break;
                    case 1:
                        t.public_input(x.col, x.row) = v;
                        break;
                    case 2:
                        t.constant(x.col, x.row) = v;
                        break;
                    default:
                        t.selector(x.col, x.row) = v;
                        break;
                }
            };
            auto cell_of = [&](const var &v, std::size_t row) {
                std::size_t rows = tab->rows_amount();
                return cellid {int(v.type), v.index, rows ? (rows + row + v.rotation) % rows : row};
            };
            auto eval = [&](const poly &p, std::size_t row) {
                value r = value::zero();
                for (auto &t : p) {
                    value x = coefficient(t.first);
                    for (auto &v : t.second)
                        x = x * read(cell_of(v, row));
                    r = r + x;
                }
                return r;
            };
            // a row at which rotations stay inside the table for sure
            auto safe_row = [&](i64 x) { return 1 + u64(x - 1) % rows_limit; };
            auto grow = [&](u64 actor, std::size_t row) {
                if (tab->rows_amount() < row + 2)
                    put(actor, {0, 5, row + 1}, value::zero());
            };
            // makes rest + sign * out equal target at the row; false if a cell that is relied upon would have to change
            auto force = [&](u64 actor, const output &o, i64 sign, std::size_t row, const value &target) {
                value x = target - eval(o.rest, row);
                if (sign < 0)
                    x = -x;
                cellid out = cell_of(o.out, row);
                if (frozen.count(out) && read(out) != x)
                    return false;
                put(actor, out, x);
                frozen.insert(out);
                for (auto &t : o.rest)
                    for (auto &v : t.second)
                        frozen.insert(cell_of(v, row));
                return eval(o.rest, row) + (sign < 0 ? -x : x) == target;
            };

            struct verdict {
                bool gates = true, lookups = true, dynamic = true, copies = true, partial_only = false;
                bool all() const { return gates && lookups && dynamic && copies; }
            };
            // the evaluation the check is compared with
            auto judge = [&](const table_view *tvw, const circuit_view *cvw) {
                verdict r;
                std::set<std::vector<value>> dyn;
                std::size_t rows = tab->rows_amount();
                for (std::size_t row = 0; row < rows; row++)
                    if (!read({3, tag, row}).is_zero())
                        for (auto &o : options)
                            dyn.insert({eval(whole(o[0], 1), row), eval(whole(o[1], 1), row)});
                auto rows_ok = [&](std::size_t row) { return !tvw || tvw->get_used_selector_rows().count(row); };
                bool broke_part = false, broke_other = false;
                for (std::size_t i = 0; i < bp->gates().size(); i++) {
                    if (cvw && !cvw->get_used_gates().count(i))
                        continue;
                    std::size_t sel = bp->gates()[i].selector_index;
                    for (std::size_t row = 0; row < rows; row++)
                        if (rows_ok(row) && !read({3, sel, row}).is_zero())
                            for (auto &o : gates[gate_of.at(sel)])
                                r.gates = r.gates && eval(whole(o, -1), row).is_zero();
                }
                for (std::size_t i = 0; i < bp->lookup_gates().size(); i++) {
                    if (cvw && !cvw->get_used_lookup_gates().count(i))
                        continue;
                    std::size_t sel = bp->lookup_gates()[i].tag_index;
                    for (std::size_t row = 0; row < rows; row++) {
                        if (!rows_ok(row) || read({3, sel, row}).is_zero())
                            continue;
                        for (auto &l : lookups[lookup_of.at(sel)]) {
                            std::vector<value> in;
                            for (auto &o : l.inputs)
                                in.push_back(eval(whole(o, 1), row));
                            if (l.table == 4) {
                                r.dynamic = r.dynamic && dyn.count(in);
                                continue;
                            }
                            bool found = false, outside = false;
                            for (std::size_t k = 0; k < own_rows; k++) {
                                bool same = true;
                                for (std::size_t j = 0; j < in.size(); j++)
                                    same = same && own_cell(subs()[l.table].cols[j], k) == in[j];
                                bool inside = k >= subs()[l.table].begin && k <= subs()[l.table].end;
                                found = found || (same && inside);
                                outside = outside || (same && !inside);
                            }
                            r.lookups = r.lookups && found;
                            broke_part = broke_part || (!found && outside);
                            broke_other = broke_other || (!found && !outside);
                        }
                    }
                }
                for (std::size_t i = 0; i < copies.size(); i++) {
                    if (cvw && !cvw->get_used_copy_constraints().count(i))
                        continue;
                    r.copies = r.copies && read(copies[i].a) == read(copies[i].b);
                }
                r.partial_only = broke_part && !broke_other && r.gates && r.dynamic && r.copies;
                return r;
            };

            u64 inter = 1;
            auto corrupt = [&](u64 actor, const cellid &x, u64 how) {
                value old = read(x), v = old;
                switch (how % 5) {
                    case 0:
                        v = value::zero();
                        break;
                    case 1:
                        v = value::one();
                        break;
                    case 2:
                        v = old + value::one();
                        break;
                    case 3:
                        v = -old - value::one();
                        break;
                    case 4:
                        v = make_value(how * 13 + x.row);
                        break;
                }
                original.emplace(x, old);
                put(actor, x, v);
                static const char *names[] = {"corrupt-witness", "corrupt-public-input", "corrupt-constant", "corrupt-selector"};
                c.fault(names[x.type]);
                c.probe("selector-beyond-written-rows", x.type == 3 && !v.is_zero() && x.row >= tab->allocated_rows());
                corrupted = true;
                repaired = false;
                c.event("corrupt " + std::to_string(x.type) + " " + std::to_string(x.col) + " " + std::to_string(x.row));
            };
            for (auto &st : s.steps) {
                c.sim_steps++;
                u64 actor = u64(st.arg(0)) % (n + 1);
                inter = mix(fnv(st.op, inter), actor * 4096 + u64(st.arg(1)) * 64 + u64(st.arg(2)));
                c.state(inter);
                if (st.op == "gate") {
                    std::size_t k = u64(st.arg(1)) % gate_kinds, row = safe_row(st.arg(2));
                    grow(actor, row);
                    bool ok = true;
                    for (auto &o : gates[k])
                        for (auto &t : o.rest)
                            for (auto &v : t.second)
                                if (!frozen.count(cell_of(v, row)) && v.type != var::column_type::selector && gs.chance(1, 2))
                                    put(actor, cell_of(v, row), make_value(u64(st.arg(3)) + v.index));
                    for (auto &o : gates[k])
                        ok = ok && force(actor, o, -1, row, value::zero());
                    if (!ok)
                        continue;
                    std::size_t sel;
                    if (gates[k].size() == 1)
                        sel = C(actor).add_gate(make_constraint(whole(gates[k][0], -1), 0));
                    else
                        sel = C(actor).add_gate(std::vector<constraint> {make_constraint(whole(gates[k][0], -1), 0),
                                                                         make_constraint(whole(gates[k][1], -1), 1)});
                    gate_of[sel] = k;
                    T(actor).enable_selector(sel, row);
                    frozen.insert({3, sel, row});
                    c.event("gate " + std::to_string(k) + " " + std::to_string(row));
                } else if (st.op == "lookup") {
                    std::size_t k = u64(st.arg(1)) % lookup_kinds, row = safe_row(st.arg(2));
                    grow(actor, row);
                    bool ok = true;
                    for (auto &l : lookups[k]) {
                        std::vector<value> want;
                        if (l.table == 4) {
                            if (table_rows.empty()) {
                                ok = false;
                                break;
                            }
                            auto &t = table_rows[u64(st.arg(3)) % table_rows.size()];
                            want = {t.first, t.second};
                        } else {
                            auto &sb = subs()[l.table];
                            std::size_t r = sb.begin + u64(st.arg(3)) % (sb.end - sb.begin + 1);
                            for (auto col : sb.cols)
                                want.push_back(own_cell(col, r));
                        }
                        for (std::size_t j = 0; j < want.size(); j++)
                            ok = ok && force(actor, l.inputs[j], 1, row, want[j]);
                    }
                    if (!ok)
                        continue;
                    std::vector<lookup_constraint> v;
                    for (auto &l : lookups[k]) {
                        lookup_constraint x;
                        x.table_id = l.table == 4 ? ids["dynamic"] : ids["own/" + subs()[l.table].name];
                        for (auto &o : l.inputs)
                            x.lookup_input.push_back(make_constraint(whole(o, 1), 0));
                        v.push_back(x);
                    }
                    std::size_t sel = C(actor).add_lookup_gate(v);
                    lookup_of[sel] = k;
                    T(actor).enable_selector(sel, row);
                    frozen.insert({3, sel, row});
                    placed.push_back({k, row});
                    c.event("lookup " + std::to_string(k) + " " + std::to_string(row));
                } else if (st.op == "table_row") {
                    std::size_t row = safe_row(st.arg(1));
                    grow(actor, row);
                    value a = make_value(u64(st.arg(2))), b = make_value(u64(st.arg(2)) + 1);
                    std::size_t o = u64(st.arg(2)) % 2;
                    if (!force(actor, options[o][0], 1, row, a) || !force(actor, options[o][1], 1, row, b))
                        continue;
                    T(actor).enable_selector(tag, row);
                    frozen.insert({3, tag, row});
                    table_rows.push_back({a, b});
                    c.event("table row " + std::to_string(row));
                } else if (st.op == "copy") {
                    cellid x {int(u64(st.arg(1)) % 3), 0, safe_row(st.arg(3))}, y {int(u64(st.arg(4)) % 3), 0, safe_row(st.arg(6))};
                    const std::size_t widths[] = {witnesses, publics, constants};
                    x.col = u64(st.arg(2)) % widths[x.type];
                    y.col = u64(st.arg(5)) % widths[y.type];
                    put(actor, x, read(x));
                    if (frozen.count(y)) {
                        if (frozen.count(x) && read(x) != read(y))
                            continue;
                        put(actor, x, read(y));
                        put(actor, y, read(y));
                    } else
                        put(actor, y, read(x));
                    frozen.insert(x);
                    frozen.insert(y);
                    C(actor).add_copy_constraint({absolute(x.type, x.col, x.row), absolute(y.type, y.col, y.row)});
                    if (bp->copy_constraints().size() > copies.size())    // a cell joined with itself may be left out
                        copies.push_back({x, y});
                    c.event("copy");
                } else if (st.op == "write") {
                    cellid x {int(u64(st.arg(1)) % 3), 0, safe_row(st.arg(3))};
                    const std::size_t widths[] = {witnesses, publics, constants};
                    x.col = u64(st.arg(2)) % widths[x.type];
                    if (!frozen.count(x))
                        put(actor, x, make_value(u64(st.arg(4))));
                } else if (st.op == "corrupt") {
                    cellid x {int(u64(st.arg(1)) % 4), 0, u64(st.arg(3)) % (rows_limit + 6)};
                    const std::size_t widths[] = {witnesses, publics, constants, selectors};
                    x.col = u64(st.arg(2)) % widths[x.type];
                    corrupt(actor, x, u64(st.arg(4)));
                } else if (st.op == "corrupt_used") {
                    if (frozen.empty())
                        continue;
                    auto it = frozen.begin();
                    std::advance(it, u64(st.arg(1)) % frozen.size());
                    corrupt(actor, *it, u64(st.arg(2)));
                } else if (st.op == "misdirect") {
                    // a lookup is made to ask for a row that its table has, or that only the whole table has
                    if (placed.empty())
                        continue;
                    auto &p = placed[u64(st.arg(1)) % placed.size()];
                    for (auto &l : lookups[p.first]) {
                        if (l.table == 4)
                            continue;
                        for (std::size_t j = 0; j < l.inputs.size(); j++) {
                            cellid out = cell_of(l.inputs[j].out, p.second);
                            original.emplace(out, read(out));
                            put(actor, out, own_cell(subs()[l.table].cols[j], u64(st.arg(2)) % own_rows) - eval(l.inputs[j].rest, p.second));
                        }
                        c.fault("corrupt-witness");
                        corrupted = true;
                        repaired = false;
                    }
                    c.event("misdirect " + std::to_string(p.first) + " " + std::to_string(p.second));
                } else if (st.op == "repair") {
                    // all corrupted cells, or all but one
                    bool all = u64(st.arg(1)) % 2 == 0;
                    for (auto &o : original) {
                        if (!all) {
                            all = true;
                            continue;
                        }
                        put(actor, o.first, o.second);
                        c.fault("cell-repaired");
                    }
                    repaired = true;
                } else if (st.op == "verdict") {
                    verdict want = judge(nullptr, nullptr);
                    bool got;
                    {
                        cout_catcher quiet;
                        got = nil::blueprint::is_satisfied(*bp, *tab);
                    }
                    c.probe(want.all() ? "accepted" : "rejected");
                    c.probe("harmless-corruption-accepted", want.all() && corrupted && !repaired);
                    c.probe("accepted-after-repair", want.all() && repaired);
                    c.probe("gate-broken", !want.gates);
                    c.probe("lookup-broken", !want.lookups);
                    c.probe("dynamic-lookup-broken", !want.dynamic);
                    c.probe("copy-broken", !want.copies);
                    c.probe("only-partial-table-breaks", want.partial_only);
                    c.nontrivial = c.nontrivial || corrupted;
                    auto why = [](const verdict &v) {
                        return std::string(v.gates ? "gates hold" : "a gate is broken") + ", " + (v.lookups ? "lookups hold" : "a lookup is broken") +
                               ", " + (v.dynamic ? "dynamic lookups hold" : "a dynamic lookup is broken") + ", " +
                               (v.copies ? "copy constraints hold" : "a copy constraint is broken");
                    };
                    c.require(corrupted || want.all(), "harness", "the table built is not satisfied: " + why(want));
                    c.require(got == want.all(), got ? "wrongly-accepted" : "wrongly-rejected", "the table: " + why(want));
                    c.event(got ? "accepted" : "rejected");
                    for (std::size_t i = 0; i < n; i++) {
                        verdict w = judge(&tv[i], &cv[i]);
                        {
                            cout_catcher quiet;
                            got = nil::blueprint::is_satisfied(cv[i], tv[i]);
                        }
                        c.probe(w.all() ? "view-accepted" : "view-rejected");
                        c.require(got == w.all(), got ? "view-wrongly-accepted" : "view-wrongly-rejected",
                                  "part of prover " + std::to_string(i) + ": " + why(w));
                    }
                }
            }
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C12 h;
    return sim::main(h, argc, argv);
}
