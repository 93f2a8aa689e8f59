// C04: prover views of one shared table behave as a single table.
// build: -DBLUEPRINT_DEBUG_ENABLED
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>

#include "plonk_kit.hpp"

using namespace sim;
using namespace kit;

typedef nil::blueprint::assignment_proxy<arith> view_t;

namespace {
    enum kind { W, P, C, S };    // same order as var::column_type

    struct model {
        std::vector<column> cols[4];
        column shared;
        std::size_t allocated = 0, allocated_at_most = 0;
        std::unique_ptr<table_t> single;    // the same operations on one plain table
        std::set<std::uint32_t> lookup_constants, lookup_selectors;
        std::vector<value> storage;
        std::vector<std::set<std::uint32_t>> used, used_selectors;
        value &at(int k, std::size_t col, std::size_t row) {
            auto &x = cols[k][col];
            if (x.size() <= row)
                x.resize(row + 1, value::zero());
            return x[row];
        }
        std::size_t rows() const {
            std::size_t r = 0;
            for (auto &k : cols)
                for (auto &x : k)
                    r = std::max(r, x.size());
            return r;
        }
        std::size_t longest(int k) const {
            std::size_t r = 0;
            for (auto &x : cols[k])
                r = std::max(r, x.size());
            return r;
        }
    };

    struct handed {    // a variable handed out for a value kept outside the table
        var v;
        value x;
        bool constant;
    };

    struct C04 : Harness {
        const char *property() const override { return "C04"; }
        const char *rule() const override {
            return "a run interleaves 4..80 reads, writes, selector enablings, column fills, storage accesses, batched variables "
                   "and shared values of 1..4 provers, each through its own view of one shared table, some directly on the table; "
                   "non-trivial: at least two actors wrote; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (actor, operation, cell) sequence so far: distinct interleavings"; }
        std::vector<std::string> real_components() const override { return {"assignment_proxy.hpp", "assignment.hpp", "assert.hpp"}; }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field and plonk table base class (stand-in)", "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"provers take turns (the views are not meant for concurrent threads)",
                    "access through a non-constant accessor counts as writing, as the interface cannot tell"};
        }
        std::vector<std::string> fault_kinds() const override { return {"switch-between-provers", "read-of-foreign-row-under-check"}; }
        std::vector<std::string> probe_names() const override {
            return {"overwrote-other-prover", "read-of-other-provers-cell", "selector-range-with-step", "columns-filled", "columns-added",
                    "equal-batched-constant", "batched-variable", "shared-value", "direct-operation-on-shared-table"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 2000000 : 40000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            i64 n = g.range(1, 4);
            s.cfg["provers"] = n;
            for (const char *k : {"w", "p", "c", "s"})
                s.cfg[k] = g.range(1, 4);
            u64 steps = g.range(4, g.chance(1, 4) ? 80 : 30);
            i64 rows = g.chance(1, 2) ? 4 : 20;
            std::vector<unsigned> w = {12, 6, 2, 8, 2, 3, 4, 4, 3, 2, 1, 2};
            for (auto &x : w)
                if (g.chance(1, 4))
                    x = 0;
            w[0]++;
            i64 actor = 0;
            for (u64 i = 0; i < steps; i++) {
                if (g.chance(2, 3))
                    actor = g.chance(1, 8) ? n : g.below(n);
                i64 col = g.below(4), row = g.below(rows), v = g.below(60);
                switch (g.weighted(w)) {
                    case 0:
                        s.add("write", {actor, i64(g.below(4)), col, row, v});
                        break;
                    case 1:
                        s.add("enable", {actor, col, row});
                        break;
                    case 2:
                        s.add("enable_range", {actor, col, row, i64(g.below(6)), g.range(1, 3)});
                        break;
                    case 3:
                        s.add("read", {actor, i64(g.below(4)), col, row});
                        break;
                    case 4:
                        s.add("fill", {actor, i64(g.below(2)), col, v, i64(g.below(8))});
                        break;
                    case 5:
                        s.add("store", {actor, i64(g.below(6)), v});
                        break;
                    case 6:
                        s.add("batch", {actor, v});
                        break;
                    case 7:
                        s.add("batch_constant", {actor, i64(g.below(8))});
                        break;
                    case 8:
                        s.add("share", {actor, i64(g.below(64)), i64(g.range(1, 2))});
                        break;
                    case 9:
                        s.add("shared_write", {actor, i64(g.below(6)), v});
                        break;
                    case 10:
                        s.add("add_columns", {actor, i64(g.below(4)), g.range(1, 2)});
                        break;
                    case 11:
                        s.add("checked_read", {actor, i64(g.below(4)), col, row});
                        break;
                }
            }
            return s;
        }

        static value read(const table_t &t, int k, std::size_t col, std::size_t row) {
            switch (k) {
                case W:
                    return t.witness(col, row);
                case P:
                    return t.public_input(col, row);
                case C:
                    return t.constant(col, row);
                default:
                    return t.selector(col, row);
            }
        }

        void compare(Ctx &c, const table_t &t, const model &m, const std::vector<handed> &vars, const std::string &who) {
            auto need = [&](bool ok, const std::string &what) { c.require(ok, "table-differs", what + " seen by " + who + " differs"); };
            need(t.witnesses_amount() == m.cols[W].size() && t.public_inputs_amount() == m.cols[P].size() &&
                     t.constants_amount() == m.cols[C].size() && t.selectors_amount() == m.cols[S].size(),
                 "number of columns");
            for (std::size_t i = 0; i < m.cols[W].size(); i++)
                need(t.witness(i) == m.cols[W][i] && t.witness_column_size(i) == m.cols[W][i].size(), "witness column " + std::to_string(i));
            for (std::size_t i = 0; i < m.cols[P].size(); i++)
                need(t.public_input(i) == m.cols[P][i] && t.public_input_column_size(i) == m.cols[P][i].size(),
                     "public input column " + std::to_string(i));
            for (std::size_t i = 0; i < m.cols[C].size(); i++)
                need(t.constant(i) == m.cols[C][i] && t.constant_column_size(i) == m.cols[C][i].size(),
                     "constant column " + std::to_string(i));
            for (std::size_t i = 0; i < m.cols[S].size(); i++)
                need(t.selector(i) == m.cols[S][i] && t.selector_column_size(i) == m.cols[S][i].size(),
                     "selector column " + std::to_string(i));
            need(t.shareds_amount() == 1 && t.shared(0) == m.shared && t.shared_column_size(0) == m.shared.size(), "shared column");
            need(t.rows_amount() == m.rows(), "number of rows");
            need(t.allocated_rows() >= m.allocated && t.allocated_rows() <= std::max(m.allocated, m.allocated_at_most) &&
                     t.allocated_rows() == m.single->allocated_rows(),
                 "number of allocated rows");
            need(t.max_size() == m.rows() && t.max_witnesses_size() == m.longest(W) && t.max_public_inputs_size() == m.longest(P) &&
                     t.max_constants_size() == m.longest(C) && t.max_selectors_size() == m.longest(S),
                 "greatest column size");
            need(t.get_lookup_constant_cols() == m.lookup_constants && t.get_lookup_constant_amount() == m.lookup_constants.size(),
                 "set of lookup constant columns");
            need(t.get_lookup_selector_cols() == m.lookup_selectors && t.get_lookup_selector_amount() == m.lookup_selectors.size(),
                 "set of lookup selector columns");
            need(t.private_storage_size() == m.storage.size(), "size of the private storage");
            for (std::size_t i = 0; i < m.storage.size(); i++)
                need(t.private_storage(i) == m.storage[i], "private storage cell " + std::to_string(i));
            for (auto &h : vars)
                c.require(nil::blueprint::var_value(t, h.v) == h.x, "handed-out-variable",
                          "variable " + text(h.v) + " read by " + who + " does not give the value it was handed out for");
        }

        void execute(const Scenario &s, Ctx &c) override {
            std::size_t n = std::max<i64>(1, std::min<i64>(4, s.get("provers", 1)));
            model m;
            const char *names[] = {"w", "p", "c", "s"};
            for (int k = 0; k < 4; k++)
                m.cols[k].resize(std::max<i64>(1, std::min<i64>(8, s.get(names[k], 1))));
            m.used.resize(n + 1);
            m.used_selectors.resize(n + 1);
            auto shared = std::make_shared<table_t>(m.cols[W].size(), m.cols[P].size(), m.cols[C].size(), m.cols[S].size());
            m.single = std::make_unique<table_t>(10, 10, 10, 10);
            std::vector<view_t> views;
            for (std::size_t i = 0; i < n; i++)
                views.emplace_back(shared, i);
            std::vector<handed> vars;
            std::map<std::string, std::size_t> batch_seen;
            std::map<std::string, std::size_t> writer;
            u64 inter = 1;
            std::size_t last = n + 1;
            std::set<std::size_t> actors;
            for (auto &st : s.steps) {
                std::size_t p = u64(st.arg(0)) % (n + 1);
                table_t &t = p == n ? *shared : static_cast<table_t &>(views[p]);
                const table_t &ct = t;
                c.sim_steps++;
                c.fault("switch-between-provers", last != p && last <= n);
                c.probe("direct-operation-on-shared-table", p == n);
                last = p;
                inter = mix(fnv(st.op, inter), p * 1000 + u64(st.arg(1)) * 100 + u64(st.arg(2)));
                c.state(inter);
                if (st.op == "write") {
                    int k = int(u64(st.arg(1)) % 4);
                    std::size_t col = u64(st.arg(2)) % m.cols[k].size(), row = u64(st.arg(3)) % 64;
                    value v = k == S ? value(u64(st.arg(4)) % 2) : make_value(u64(st.arg(4)));
                    switch (k) {
                        case W:
                            t.witness(col, row) = v;
                            break;
                        case P:
                            t.public_input(col, row) = v;
                            break;
                        case C:
                            t.constant(col, row) = v;
                            break;
                        case S:
                            t.selector(col, row) = v;
                            break;
                    }
                    m.at(k, col, row) = v;
                    if (k == W || k == C)
                        m.allocated = std::max(m.allocated, row + 1);
                    if (k == W)
                        m.single->witness(col, row) = v;
                    if (k == C)
                        m.single->constant(col, row) = v;
                    if (k != P)
                        m.used[p].insert(row);
                    if (k == S)
                        m.used_selectors[p].insert(row);
                    std::string cellname = std::to_string(k) + "," + std::to_string(col) + "," + std::to_string(row);
                    auto w = writer.find(cellname);
                    c.probe("overwrote-other-prover", w != writer.end() && w->second != p);
                    writer[cellname] = p;
                    actors.insert(p);
                    c.event("write " + std::to_string(p) + " " + cellname + " " + text(v));
                } else if (st.op == "enable") {
                    std::size_t col = u64(st.arg(1)) % m.cols[S].size(), row = u64(st.arg(2)) % 64;
                    t.enable_selector(col, row);
                    m.at(S, col, row) = value::one();
                    m.single->enable_selector(col, row);
                    m.allocated = std::max(m.allocated, row + 1);
                    m.used[p].insert(row);
                    m.used_selectors[p].insert(row);
                    actors.insert(p);
                    c.event("enable " + std::to_string(p) + " " + std::to_string(col) + " " + std::to_string(row));
                } else if (st.op == "enable_range") {
                    std::size_t col = u64(st.arg(1)) % m.cols[S].size(), row = u64(st.arg(2)) % 64, len = u64(st.arg(3)) % 8,
                                step = std::max<u64>(1, u64(st.arg(4)) % 4);
                    if (step == 1 && len % 2)
                        t.enable_selector(col, row, row + len);
                    else
                        t.enable_selector(col, row, row + len, step);
                    for (std::size_t r = row; r <= row + len; r += step) {
                        m.at(S, col, r) = value::one();
                        m.allocated = std::max(m.allocated, r + 1);
                        m.used[p].insert(r);
                        m.used_selectors[p].insert(r);
                    }
                    m.allocated_at_most = std::max(m.allocated_at_most, row + len + 1);
                    m.single->enable_selector(col, row, row + len, step);
                    c.probe("selector-range-with-step", step > 1);
                    actors.insert(p);
                    c.event("enable " + std::to_string(p) + " " + std::to_string(col) + " " + std::to_string(row) + "+" +
                            std::to_string(len) + "/" + std::to_string(step));
                } else if (st.op == "read" || st.op == "checked_read") {
                    int k = int(u64(st.arg(1)) % 4);
                    std::size_t col = u64(st.arg(2)) % m.cols[k].size();
                    if (m.cols[k][col].empty())
                        continue;
                    std::size_t row = u64(st.arg(3)) % m.cols[k][col].size();
                    bool checked = st.op == "checked_read" && p < n;
                    bool foreign = k == W   ? !m.used[p].count(row) :
                                   k == C   ? !m.used[p].count(row) && !m.lookup_constants.count(col) :
                                   k == S   ? !m.used_selectors[p].count(row) && !m.lookup_selectors.count(col) :
                                              false;
                    if (checked)
                        views[p].set_check(true);
                    value got;
                    bool refused = false;
                    try {
                        cout_catcher quiet;
                        got = read(ct, k, col, row);
                    } catch (const std::runtime_error &) {
                        refused = true;
                    }
                    if (checked)
                        views[p].set_check(false);
                    c.require(refused == (checked && foreign), refused ? "own-row-refused" : "foreign-row-not-refused",
                              "with checking on, reading a row " + std::string(foreign ? "not used" : "used") + " through the view was " +
                                  (refused ? "refused" : "accepted"));
                    c.fault("read-of-foreign-row-under-check", refused);
                    if (!refused)
                        c.require(got == m.cols[k][col][row], "read-wrong",
                                  "a read by actor " + std::to_string(p) + " did not give the last value written");
                    auto w = writer.find(std::to_string(k) + "," + std::to_string(col) + "," + std::to_string(row));
                    c.probe("read-of-other-provers-cell", w != writer.end() && w->second != p);
                    c.event("read " + std::to_string(p) + " " + std::to_string(k) + " " + std::to_string(col) + " " + std::to_string(row) +
                            (refused ? " refused" : " " + text(got)));
                } else if (st.op == "fill") {
                    bool sel = u64(st.arg(1)) % 2;
                    auto &cols = m.cols[sel ? S : C];
                    std::size_t col = u64(st.arg(2)) % cols.size();
                    column x;
                    for (u64 i = 0; i < u64(st.arg(4)) % 16; i++)
                        x.push_back(sel ? value(i % 2) : make_value(u64(st.arg(3)) + i));
                    if (sel) {
                        t.fill_selector(col, x);
                        m.lookup_selectors.insert(col);
                    } else {
                        t.fill_constant(col, x);
                        m.lookup_constants.insert(col);
                    }
                    cols[col] = x;
                    c.probe("columns-filled");
                    c.event("fill " + std::to_string(p) + " " + std::to_string(sel) + std::to_string(col));
                } else if (st.op == "store") {
                    std::size_t i = u64(st.arg(1)) % 16;
                    value v = make_value(u64(st.arg(2)));
                    if (v == value::zero() && i == 0) {
                        t.clear_private_storage();
                        m.storage.clear();
                    } else {
                        t.private_storage(i) = v;
                        if (m.storage.size() <= i)
                            m.storage.resize(i + 1, value::zero());
                        m.storage[i] = v;
                    }
                    c.event("store " + std::to_string(p));
                } else if (st.op == "batch") {
                    value v = make_value(u64(st.arg(1)));
                    var x = t.add_batch_variable(v);
                    c.require(batch_seen.emplace(text(x), vars.size()).second, "batched-variable-reused",
                              "batched variable " + text(x) + " was handed out twice");
                    vars.push_back({x, v, false});
                    c.probe("batched-variable");
                    c.event("batch " + std::to_string(p) + " " + text(x));
                } else if (st.op == "batch_constant") {
                    value v = make_value(u64(st.arg(1)));
                    var x = t.add_batch_constant_variable(v);
                    auto seen = batch_seen.emplace(text(x), vars.size());
                    c.require(seen.second || (vars[seen.first->second].constant && vars[seen.first->second].x == v),
                              "batched-variable-reused", "batched constant variable " + text(x) + " stands for two values");
                    c.probe("equal-batched-constant", !seen.second);
                    vars.push_back({x, v, true});
                    c.event("constant " + std::to_string(p) + " " + text(x));
                } else if (st.op == "share") {
                    if (p == n)
                        continue;
                    // values that exist: any table cell or an already handed out variable
                    std::vector<var> from;
                    std::vector<value> want;
                    for (u64 i = 0; i < std::max<u64>(1, u64(st.arg(2)) % 4); i++) {
                        u64 pick = u64(st.arg(1)) + i * 7;
                        std::vector<std::pair<var, value>> all;
                        for (int k : {W, C})
                            for (std::size_t col = 0; col < m.cols[k].size(); col++)
                                for (std::size_t row = 0; row < m.cols[k][col].size(); row++)
                                    all.push_back({absolute(k, col, row), m.cols[k][col][row]});
                        for (std::size_t row = 0; row < m.cols[P][0].size(); row++)
                            all.push_back({absolute(P, 0, row), m.cols[P][0][row]});
                        for (auto &h : vars)
                            all.push_back({h.v, h.x});
                        if (all.empty())
                            break;
                        from.push_back(all[pick % all.size()].first);
                        want.push_back(all[pick % all.size()].second);
                    }
                    if (from.empty())
                        continue;
                    std::vector<var> got = from.size() == 1 ? std::vector<var> {save_shared_var(views[p], from[0])} :
                                                              save_shared_var(views[p], from);
                    c.require(got.size() == from.size(), "handed-out-variable", "wrong number of shared variables");
                    for (std::size_t i = 0; i < got.size(); i++) {
                        m.shared.push_back(want[i]);
                        batch_seen.emplace(text(got[i]), vars.size());
                        vars.push_back({got[i], want[i], false});
                    }
                    c.probe("shared-value");
                    c.event("share " + std::to_string(p));
                } else if (st.op == "shared_write") {
                    // new cells only, so that variables handed out earlier keep their values
                    std::size_t row = m.shared.size() + u64(st.arg(1)) % 3;
                    value v = make_value(u64(st.arg(2)));
                    t.shared(0, row) = v;
                    m.shared.resize(row + 1, value::zero());
                    m.shared[row] = v;
                    c.require(ct.shared(0, row) == v, "read-wrong", "a shared value did not read back");
                    c.event("shared " + std::to_string(p));
                } else if (st.op == "add_columns") {
                    int k = int(u64(st.arg(1)) % 4);
                    std::size_t to = std::min<std::size_t>(10, m.cols[k].size() + u64(st.arg(2)) % 3);
                    switch (k) {
                        case W:
                            t.resize_witnesses(to);
                            break;
                        case P:
                            t.resize_public_inputs(to);
                            break;
                        case C:
                            t.resize_constants(to);
                            break;
                        case S:
                            t.resize_selectors(to);
                            break;
                    }
                    m.cols[k].resize(to);
                    c.probe("columns-added");
                    c.event("columns " + std::to_string(p));
                } else {
                    continue;
                }
                for (std::size_t i = 0; i < n; i++) {
                    c.require(views[i].get_used_rows() == m.used[i], "used-rows-wrong",
                              "view " + std::to_string(i) + " reports used rows " + list(views[i].get_used_rows()) + " instead of " +
                                  list(m.used[i]));
                    c.require(views[i].get_used_selector_rows() == m.used_selectors[i], "used-rows-wrong",
                              "view " + std::to_string(i) + " reports used selector rows " + list(views[i].get_used_selector_rows()) +
                                  " instead of " + list(m.used_selectors[i]));
                }
            }
            compare(c, *shared, m, vars, "the shared table");
            for (std::size_t i = 0; i < n; i++) {
                compare(c, views[i], m, vars, "view " + std::to_string(i));
                c.require(views[i].get_id() == i && &views[i].get() == shared.get(), "view-identity", "a view changed its identity");
                c.require(views[i].get_used_rows() == m.used[i], "used-rows-wrong", "reading changed the used rows of a view");
            }
            c.nontrivial = actors.size() > 1;
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C04 h;
    return sim::main(h, argc, argv);
}
