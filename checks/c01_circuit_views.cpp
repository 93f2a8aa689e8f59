// C01: prover views of one shared circuit are complete and separate.
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>

#include "plonk_kit.hpp"

using namespace sim;
using namespace kit;

typedef nil::blueprint::circuit_proxy<arith> view_t;

namespace {
    class tiny_table : public nil::crypto3::zk::snark::lookup_table_definition<field> {
    public:
        std::size_t rows;
        tiny_table(const std::string &n, std::size_t r) : nil::crypto3::zk::snark::lookup_table_definition<field>(n), rows(r) {
            this->subtables["full"] = {{0, 1}, 0, r - 1};
            this->subtables["half"] = {{1}, 0, r - 1};
        }
        virtual void generate() {
            this->_table.resize(2);
            for (std::size_t i = 0; i < rows; i++) {
                this->_table[0].push_back(i);
                this->_table[1].push_back(i * rows + 1);
            }
        }
        virtual std::size_t get_columns_number() { return 2; }
        virtual std::size_t get_rows_number() { return rows; }
    };

    const std::vector<std::string> static_names = {"tiny0/full", "tiny0/half", "tiny1/full", "tiny1/half", "byte_range_table/full"};

    struct model {
        std::size_t next = 0;
        std::vector<mgate> gates, lookups;
        std::map<std::string, std::size_t> known[2], known_lookup[2];    // content -> position in the list
        std::vector<copy_constraint> copies;
        std::vector<std::size_t> table_tags;
        std::vector<std::string> reserved;
        std::map<std::string, std::size_t> defined;    // dynamic table -> tag
        std::set<std::string> dynamic;
        struct used_sets {
            std::set<std::uint32_t> gates, lookups, copies, tables;
        };
        std::vector<used_sets> used;
    };

    struct C01 : Harness {
        const char *property() const override { return "C01"; }
        const char *rule() const override {
            return "a run interleaves 4..60 building operations of 1..4 provers, each through its own view of one shared circuit, "
                   "some done directly on the shared circuit: gates and lookup gates in all forms, gates attached to selectors, "
                   "reserved selectors, copy constraints including ones the circuit drops, lookup tables, static and dynamic "
                   "reservations and definitions; non-trivial: at least two actors worked; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (actor, operation) sequence so far: distinct interleavings"; }
        std::vector<std::string> real_components() const override {
            return {"circuit_proxy.hpp", "circuit.hpp", "gate_id.hpp", "lookup_library.hpp"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions, constraint system (stand-in)", "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"provers take turns (the views are not meant for concurrent threads)",
                    "each dynamic table is reserved once and defined at most once, after its reservation"};
        }
        std::vector<std::string> fault_kinds() const override { return {"switch-between-provers"}; }
        std::vector<std::string> probe_names() const override {
            return {"gate-already-added-by-other-prover", "lookup-gate-already-added-by-other-prover", "dropped-copy-constraint",
                    "table-already-reserved-by-other-prover", "selector-reserved", "dynamic-table", "attached-gate",
                    "direct-operation-on-shared-circuit"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 2000000 : 40000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            s.cfg["entropy"] = i64(g.next() >> 2);
            i64 n = g.range(1, 4);
            s.cfg["provers"] = n;
            u64 base = g.below(400), fam = g.range(1, 3);
            u64 steps = g.range(4, g.chance(1, 4) ? 60 : 20);
            std::vector<unsigned> w = {8, 4, 4, 2, 2, 2, 2, 8, 4, 2, 2, 2, 2, 1};
            // some runs leave whole kinds of operation out
            for (auto &x : w)
                if (g.chance(1, 4))
                    x = 0;
            w[0] += 1;
            i64 actor = 0;
            for (u64 i = 0; i < steps; i++) {
                if (g.chance(2, 3))
                    actor = g.chance(1, 8) ? n : g.below(n);
                if (!s.steps.empty() && g.chance(1, 4)) {    // somebody asks for the same again
                    Step again = g.pick(s.steps);
                    again.a[0] = actor;
                    if (again.a.size() > 2 && (again.op[0] == 'g' || again.op[0] == 'l'))
                        again.a[1] = g.below(3);
                    s.steps.push_back(again);
                    continue;
                }
                auto k = [&]() { return i64((base + g.below(fam)) * 8 + g.below(8)); };
                switch (g.weighted(w)) {
                    case 0: {
                        std::vector<i64> a = {actor, i64(g.below(3)), i64(g.below(3))};
                        for (i64 m = g.range(1, 3); m > 0; m--)
                            a.push_back(k());
                        s.add("gate", a);
                        break;
                    }
                    case 1:
                        s.add("gate1", {actor, i64(g.below(3)), k()});
                        break;
                    case 2: {
                        std::vector<i64> a = {actor, i64(g.below(3)), i64(g.below(3))};
                        for (i64 m = g.range(1, 3); m > 0; m--)
                            a.push_back(g.range(1, 3)), a.push_back(k());
                        s.add("lookup", a);
                        break;
                    }
                    case 3:
                        s.add("lookup1", {actor, i64(g.below(3)), g.range(1, 3), k()});
                        break;
                    case 4:
                        s.add("attach", {actor, i64(g.below(1000)), k()});
                        break;
                    case 5:
                        s.add("attachl", {actor, i64(g.below(1000)), g.range(1, 3), k()});
                        break;
                    case 6:
                        s.add("selector", {actor});
                        break;
                    case 7:
                        s.add("copy", {actor, i64(g.weighted({6, 2, 2})), i64(g.below(64)), i64(g.below(64))});
                        break;
                    case 8:
                        s.add("reserve", {actor, i64(g.below(static_names.size()))});
                        break;
                    case 9:
                        s.add("reserve_dynamic", {actor, i64(g.below(3))});
                        break;
                    case 10:
                        s.add("define_dynamic", {actor, i64(g.below(3)), i64(g.below(9))});
                        break;
                    case 11:
                        s.add("add_table", {actor, i64(g.below(50))});
                        break;
                    case 12:
                        s.add("move_copy", {actor, i64(g.below(64)), i64(g.below(64))});
                        break;
                    case 13:
                        s.add("look", {actor});
                        break;
                }
            }
            return s;
        }

        static std::string dyn_name(i64 i) { return "dynamic_" + std::to_string(u64(i) % 3); }

        static var cell(u64 n) {
            n %= 64;
            return absolute(n % 4 == 3 ? 1 : n % 4 == 2 ? 2 : 0, (n / 4) % 2, n / 8);
        }

        void compare(Ctx &c, const circuit_t &b, const model &m, const std::string &who) {
            std::string d = diff(gates_of(b.gates()), m.gates);
            c.require(d.empty(), "gates-differ", "gate list seen by " + who + " " + d);
            d = diff(lookup_gates_of(b.lookup_gates()), m.lookups);
            c.require(d.empty(), "lookup-gates-differ", "lookup gate list seen by " + who + " " + d);
            c.require(b.num_gates() == m.gates.size() && b.num_lookup_gates() == m.lookups.size(), "counts-differ",
                      "gate counts seen by " + who + " are wrong");
            c.require(b.copy_constraints() == m.copies, "copies-differ", "copy constraints seen by " + who + " differ");
            c.require(b.get_next_selector_index() == m.next, "selectors-differ", "next selector seen by " + who + " is wrong");
            c.require(b.lookup_tables().size() == m.table_tags.size(), "tables-differ", "lookup tables seen by " + who + " differ");
            for (std::size_t i = 0; i < m.table_tags.size(); i++)
                c.require(b.lookup_tables()[i].tag_index == m.table_tags[i] && b.lookup_table(i).tag_index == m.table_tags[i],
                          "tables-differ", "lookup table " + std::to_string(i) + " seen by " + who + " differs");
            c.require(b.get_reserved_indices().size() == m.reserved.size(), "reservations-differ",
                      "reserved tables seen by " + who + " differ in number");
            for (std::size_t i = 0; i < m.reserved.size(); i++) {
                auto l = b.get_reserved_indices().find(m.reserved[i]);
                auto r = b.get_reserved_indices_right().find(i + 1);
                c.require(l != b.get_reserved_indices().end() && l->second == i + 1 && r != b.get_reserved_indices_right().end() &&
                              r->second == m.reserved[i],
                          "reservations-differ", "index of reserved table " + m.reserved[i] + " seen by " + who + " is wrong");
            }
        }

        void execute(const Scenario &s, Ctx &c) override {
            entropy::seed(s.get("entropy"));
            std::size_t n = std::max<i64>(1, std::min<i64>(4, s.get("provers", 1)));
            auto shared = std::make_shared<circuit_t>();
            std::vector<view_t> views;
            for (std::size_t i = 0; i < n; i++)
                views.emplace_back(shared, i);
            model m;
            m.used.resize(n + 1);
            {
                circuit_t &b = views[0];
                b.register_lookup_table(std::make_shared<tiny_table>("tiny0", 3));
                circuit_t &b2 = views[n - 1];
                b2.register_lookup_table(std::make_shared<tiny_table>("tiny1", 5));
            }
            u64 inter = 1;
            std::size_t last = n + 1;
            std::set<std::size_t> actors;
            for (auto &st : s.steps) {
                std::size_t p = u64(st.arg(0)) % (n + 1);
                circuit_t &b = p == n ? *shared : static_cast<circuit_t &>(views[p]);
                auto &used = m.used[p];
                c.sim_steps++;
                c.fault("switch-between-provers", last != p && last <= n);
                c.probe("direct-operation-on-shared-circuit", p == n);
                last = p;
                actors.insert(p);
                inter = mix(fnv(st.op, inter), p);
                c.state(inter);
                if (st.op == "gate" || st.op == "gate1" || st.op == "lookup" || st.op == "lookup1") {
                    bool single = st.op.back() == '1', lookup = st.op[0] == 'l';
                    u64 variant = u64(st.arg(1));
                    std::vector<constraint> cs;
                    std::vector<lookup_constraint> ls;
                    std::vector<std::string> means;
                    std::size_t at = single ? 2 : 3;
                    for (std::size_t i = at; i < st.a.size(); i++) {
                        if (!lookup) {
                            poly q = make_poly(u64(st.a[i]));
                            cs.push_back(make_constraint(q, variant ? variant * 10 + i : 0));
                            means.push_back(meaning(q));
                        } else if (i + 1 < st.a.size()) {
                            lookup_constraint lc;
                            lc.table_id = std::max<u64>(1, u64(st.a[i]) % 8);
                            poly q = make_poly(u64(st.a[++i]));
                            lc.lookup_input.push_back(make_constraint(q, variant ? variant * 10 + i : 0));
                            means.push_back("t" + std::to_string(lc.table_id) + ":" + meaning(q) + ",");
                            ls.push_back(lc);
                        }
                        if (single && !means.empty())
                            break;
                    }
                    if (means.empty())
                        continue;
                    std::string key = sorted_key({0, means});
                    auto &list = lookup ? m.lookups : m.gates;
                    auto *known = lookup ? m.known_lookup : m.known;
                    auto hit = known[single].find(key);
                    bool other_form = known[!single].count(key);
                    int how = single ? -1 : int(u64(st.arg(2)) % 3);
                    std::size_t before = lookup ? shared->num_lookup_gates() : shared->num_gates();
                    std::size_t sel;
                    if (!lookup)
                        sel = single                      ? b.add_gate(cs[0]) :
                              how && cs.size() == 2       ? b.add_gate({cs[0], cs[1]}) :
                              how && cs.size() == 3       ? b.add_gate({cs[0], cs[1], cs[2]}) :
                                                            b.add_gate(cs);
                    else
                        sel = single                      ? b.add_lookup_gate(ls[0]) :
                              how && ls.size() == 2       ? b.add_lookup_gate({ls[0], ls[1]}) :
                              how && ls.size() == 3       ? b.add_lookup_gate({ls[0], ls[1], ls[2]}) :
                                                            b.add_lookup_gate(ls);
                    std::size_t after = lookup ? shared->num_lookup_gates() : shared->num_gates();
                    if (hit == known[single].end() && other_form && after == before)
                        hit = known[single].emplace(key, known[!single][key]).first;
                    if (hit == known[single].end()) {
                        c.require(sel == m.next, "selector-wrong", st.op + " got selector " + std::to_string(sel) + " instead of " +
                                                                       std::to_string(m.next));
                        list.push_back({sel, means});
                        hit = known[single].emplace(key, list.size() - 1).first;
                        m.next++;
                    } else {
                        c.require(sel == list[hit->second].selector, "selector-wrong",
                                  st.op + " got selector " + std::to_string(sel) + " instead of " +
                                      std::to_string(list[hit->second].selector));
                        bool mine = lookup ? used.lookups.count(hit->second) : used.gates.count(hit->second);
                        c.probe(lookup ? "lookup-gate-already-added-by-other-prover" : "gate-already-added-by-other-prover", !mine);
                    }
                    (lookup ? used.lookups : used.gates).insert(hit->second);
                    c.event(st.op + " " + std::to_string(p) + " " + key + " " + std::to_string(sel));
                } else if (st.op == "attach" || st.op == "attachl") {
                    if (m.next == 0)
                        continue;
                    std::size_t sel = u64(st.arg(1)) % m.next, got;
                    poly q = make_poly(u64(st.arg(st.op == "attach" ? 2 : 3)));
                    c.probe("attached-gate");
                    if (st.op == "attach") {
                        got = b.add_gate(sel, std::vector<constraint> {make_constraint(q, 0)});
                        m.gates.push_back({sel, {meaning(q)}});
                        used.gates.insert(m.gates.size() - 1);
                    } else {
                        lookup_constraint lc;
                        lc.table_id = std::max<u64>(1, u64(st.arg(2)) % 8);
                        lc.lookup_input.push_back(make_constraint(q, 0));
                        got = b.add_lookup_gate(sel, std::vector<lookup_constraint> {lc});
                        m.lookups.push_back({sel, {"t" + std::to_string(lc.table_id) + ":" + meaning(q) + ","}});
                        used.lookups.insert(m.lookups.size() - 1);
                    }
                    c.require(got == sel, "selector-wrong", "an attached gate got another selector");
                    c.event(st.op + " " + std::to_string(p));
                } else if (st.op == "selector") {
                    std::size_t sel = b.get_dynamic_lookup_table_selector();
                    c.probe("selector-reserved");
                    c.require(sel == m.next, "selector-reused", "a reserved selector is " + std::to_string(sel) + ", the fresh one is " +
                                                                    std::to_string(m.next));
                    m.next++;
                    c.event("selector " + std::to_string(p));
                } else if (st.op == "copy") {
                    var x = cell(u64(st.arg(2))), y = cell(u64(st.arg(3)));
                    u64 kind = u64(st.arg(1)) % 3;
                    if (kind == 1)
                        y = x;
                    if (kind == 2)
                        (u64(st.arg(2)) % 2 ? x : y).index = table_t::private_storage_index;
                    bool dropped = x == y || kind == 2;
                    b.add_copy_constraint(copy_constraint(x, y));
                    if (!dropped) {
                        m.copies.push_back(copy_constraint(x, y));
                        used.copies.insert(m.copies.size() - 1);
                    }
                    c.probe("dropped-copy-constraint", dropped);
                    c.event("copy " + std::to_string(p) + " " + text(x) + " " + text(y));
                } else if (st.op == "move_copy") {
                    auto &list = b.mutable_copy_constraints();
                    c.require(list == m.copies, "copies-differ", "copy constraints open for change differ from the shared ones");
                    if (list.empty())
                        continue;
                    std::size_t i = u64(st.arg(1)) % list.size();
                    list[i].second = cell(u64(st.arg(2)));
                    m.copies[i].second = cell(u64(st.arg(2)));
                    c.event("move " + std::to_string(i));
                } else if (st.op == "reserve") {
                    const std::string &name = static_names[u64(st.arg(1)) % static_names.size()];
                    b.reserve_table(name);
                    auto it = std::find(m.reserved.begin(), m.reserved.end(), name);
                    if (it == m.reserved.end()) {
                        m.reserved.push_back(name);
                        it = m.reserved.end() - 1;
                    } else {
                        c.probe("table-already-reserved-by-other-prover", !used.tables.count(it - m.reserved.begin()));
                    }
                    used.tables.insert(it - m.reserved.begin());
                    c.event("reserve " + std::to_string(p) + " " + name);
                } else if (st.op == "reserve_dynamic") {
                    std::string name = dyn_name(st.arg(1));
                    if (!m.dynamic.insert(name).second)
                        continue;
                    b.reserve_dynamic_table(name);
                    m.reserved.push_back(name);
                    used.tables.insert(m.reserved.size() - 1);
                    c.probe("dynamic-table");
                    c.event("reserve " + std::to_string(p) + " " + name);
                } else if (st.op == "define_dynamic") {
                    std::string name = dyn_name(st.arg(1));
                    if (!m.dynamic.count(name) || m.defined.count(name))
                        continue;
                    lookup_table t(1, u64(st.arg(2)));
                    t.append_option({constraint(var(0, 0))});
                    b.define_dynamic_table(name, t);
                    m.defined[name] = u64(st.arg(2));
                    c.event("define " + std::to_string(p) + " " + name);
                } else if (st.op == "add_table") {
                    b.add_lookup_table(lookup_table(1, u64(st.arg(1))));
                    m.table_tags.push_back(u64(st.arg(1)));
                    c.event("table " + std::to_string(p));
                } else if (st.op == "look") {
                    compare(c, b, m, "prover " + std::to_string(p));
                    c.event("look " + std::to_string(p));
                }
                for (std::size_t i = 0; i < n; i++) {
                    auto &u = m.used[i];
                    std::string who = "view " + std::to_string(i) + " reports used ";
                    c.require(views[i].get_used_gates() == u.gates, "used-gates-wrong",
                              who + "gates " + list(views[i].get_used_gates()) + " instead of " + list(u.gates));
                    c.require(views[i].get_used_lookup_gates() == u.lookups, "used-lookup-gates-wrong",
                              who + "lookup gates " + list(views[i].get_used_lookup_gates()) + " instead of " + list(u.lookups));
                    c.require(views[i].get_used_copy_constraints() == u.copies, "used-copies-wrong",
                              who + "copy constraints " + list(views[i].get_used_copy_constraints()) + " instead of " + list(u.copies));
                    c.require(views[i].get_used_lookup_tables() == u.tables, "used-tables-wrong",
                              who + "lookup tables " + list(views[i].get_used_lookup_tables()) + " instead of " + list(u.tables));
                }
            }
            compare(c, *shared, m, "the shared circuit");
            for (std::size_t i = 0; i < n; i++) {
                circuit_t &b = views[i];
                compare(c, b, m, "view " + std::to_string(i));
                c.require(views[i].get_id() == i && &views[i].get() == shared.get(), "view-identity", "a view changed its identity");
                for (auto &d : m.defined) {
                    auto def = b.get_dynamic_table_definition(d.first);
                    c.require(def && def->is_defined() && def->lookup_table.tag_index == d.second, "dynamic-table-wrong",
                              "definition of " + d.first + " seen by view " + std::to_string(i) + " differs");
                }
            }
            // closing the reservation through one view closes it for all
            circuit_t &closer = views[u64(s.get("provers")) % n];
            std::set<std::string> mains;
            for (auto &r : m.reserved)
                if (!m.dynamic.count(r))
                    mains.insert(r.substr(0, r.find('/')));
            c.require(closer.get_reserved_tables().size() == mains.size(), "reserved-tables-wrong", "wrong number of filled tables");
            for (std::size_t i = 0; i <= n; i++) {
                circuit_t &b = i == n ? *shared : static_cast<circuit_t &>(views[i]);
                std::string who = i == n ? "the shared circuit" : "view " + std::to_string(i);
                c.require(b.get_reserved_tables().size() == mains.size(), "reserved-tables-wrong",
                          "filled tables seen by " + who + " differ in number");
                for (auto &x : mains)
                    c.require(b.get_reserved_tables().count(x) == 1 && b.get_reserved_tables().at(x)->get_table().size() >= 1,
                              "reserved-tables-wrong", "table " + x + " seen by " + who + " is missing");
                c.require(b.get_reserved_dynamic_tables().size() == m.dynamic.size(), "dynamic-tables-wrong",
                          "dynamic tables seen by " + who + " differ in number");
                for (auto &x : m.dynamic) {
                    auto it = b.get_reserved_dynamic_tables().find(x);
                    c.require(it != b.get_reserved_dynamic_tables().end() && it->second->is_defined() == (m.defined.count(x) > 0),
                              "dynamic-tables-wrong", "dynamic table " + x + " seen by " + who + " differs");
                }
            }
            c.nontrivial = actors.size() > 1;
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C01 h;
    return sim::main(h, argc, argv);
}
