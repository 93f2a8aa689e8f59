// C07: lookup table reservation is stable and order-respecting.
#include "plonk_kit.hpp"

#include <nil/blueprint/lookup_library.hpp>

using namespace sim;
using namespace kit;

namespace {
    typedef nil::blueprint::lookup_library<field> library;
    typedef std::vector<std::vector<value>> content;

    struct generation_failed {};

    // A caller's table.  Its generation fails as often as told, possibly after part of the work.
    class own_table : public nil::crypto3::zk::snark::lookup_table_definition<field> {
    public:
        std::size_t rows, seed;
        int *failures;
        own_table(const std::string &n, std::size_t r, std::size_t seed_, int *f) :
            nil::crypto3::zk::snark::lookup_table_definition<field>(n), rows(r), seed(seed_), failures(f) {
            this->subtables["full"] = {{0, 1}, 0, r - 1};
            this->subtables["second"] = {{1}, 0, r - 1};
        }
        static content make(std::size_t rows, std::size_t seed) {
            content t(2);
            for (std::size_t i = 0; i < rows; i++) {
                t[0].push_back(value(i + seed));
                t[1].push_back(value(i * rows + 1 + seed));
            }
            return t;
        }
        virtual void generate() {
            if (*failures > 0) {
                (*failures)--;
                throw generation_failed();
            }
            content t = make(rows, seed);
            this->_table = std::move(t);
        }
        virtual std::size_t get_columns_number() { return 2; }
        virtual std::size_t get_rows_number() { return rows; }
    };

    struct sub {
        std::vector<std::size_t> cols;
        std::size_t begin, end;
    };
    struct table_model {
        content full;
        bool exact = true;    // full holds the whole content
        std::map<std::string, sub> subs;
    };

    value sparse(u64 v, u64 base) {
        value r = value::zero(), p = value::one();
        for (; v; v >>= 1, p = p * value(base))
            if (v & 1)
                r = r + p;
        return r;
    }

    const std::map<std::string, table_model> &built_in() {
        static std::map<std::string, table_model> m;
        if (m.empty()) {
            auto counting = [](u64 n) {
                content t(1);
                for (u64 i = 0; i < n; i++)
                    t[0].push_back(value(i));
                return t;
            };
            m["byte_range_table"] = {counting(256), true, {{"full", {{0}, 0, 255}}}};
            m["chunk_16_bits"] = {counting(65536), true, {{"full", {{0}, 0, 65535}}}};
            content x = {{0u, 0u, 1u, 1u}, {0u, 1u, 0u, 1u}, {0u, 1u, 1u, 0u}}, a = x;
            a[2] = {0u, 0u, 0u, 1u};
            m["binary_xor_table"] = {x, true, {{"full", {{0, 1, 2}, 0, 3}}}};
            m["binary_and_table"] = {a, true, {{"full", {{0, 1, 2}, 0, 3}}}};
            for (u64 base : {4, 7}) {
                content t = counting(16384);
                t.emplace_back();
                for (u64 i = 0; i < 16384; i++)
                    t[1].push_back(sparse(i, base));
                m["sha256_sparse_base" + std::to_string(base)] = {
                    t, true, {{"full", {{0, 1}, 0, 16383}}, {"first_column", {{0}, 0, 16383}}}};
            }
            m["sha256_sparse_base7"].subs["second_column"] = {{1}, 0, 16383};
            // eight digits of base 4, each the sum of three bits: the majorities
            content t(2);
            for (u64 i = 0; i < 65536; i++) {
                u64 bits = 0;
                for (unsigned k = 0; k < 8; k++)
                    bits |= u64((i >> (2 * k)) % 4 > 1) << k;
                t[0].push_back(value(bits));
                t[1].push_back(value(i));
            }
            m["sha256_maj"] = {t, true, {{"full", {{0, 1}, 0, 65535}}, {"first_column", {{0}, 0, 65535}}}};
            // opcode byte, number of bytes pushed, 1; then one row of zeros
            content ops(3);
            for (u64 op = 0; op < 256; op++) {
                bool known = op <= 0x0b || (op >= 0x10 && op <= 0x1d) || op == 0x20 || (op >= 0x30 && op <= 0x4a) ||
                             (op >= 0x50 && op <= 0xa4) || (op >= 0xf0 && op <= 0xf5) || op == 0xfa || op >= 0xfd;
                if (!known)
                    continue;
                ops[0].push_back(value(op));
                ops[1].push_back(value(op >= 0x60 && op <= 0x7f ? op - 0x5f : 0));
                ops[2].push_back(value::one());
            }
            for (auto &col : ops)
                col.push_back(value::zero());
            m["zkevm_opcodes"] = {ops, true, {{"full", {{0, 1, 2}, 0, 149}}, {"opcodes_only", {{0}, 0, 149}}}};
        }
        return m;
    }

    struct C07 : Harness {
        const char *property() const override { return "C07"; }
        const char *rule() const override {
            return "a run issues 2..40 operations on one lookup library (reservations of built-in, caller's and dynamic tables, repeated, "
                   "unknown and late ones, registrations, definitions, queries) and closes the reservation, with allocations or table "
                   "generation failing at chosen points and the failed call repeated; non-trivial: at least two tables reserved; distinct "
                   "by event log";
        }
        const char *state_measure() const override { return "hash of the operation sequence so far"; }
        std::vector<std::string> real_components() const override { return {"lookup_library.hpp", "sha2 split_functions.hpp"}; }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field and table definition base classes (stand-in)", "operator new (simulated failures)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"assertions are enabled (errors are reported through BOOST_ASSERT)", "definitions happen before closing",
                    "after a failed closing the next operation is another attempt to close"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"allocation-failed", "generation-failed", "unknown-table", "unknown-subtable", "late-reservation", "undefined-query"};
        }
        std::vector<std::string> probe_names() const override {
            return {"repeated-reservation", "two-subtables-of-one-table", "table-replaced-after-reservation", "dynamic-defined",
                    "dynamic-reserved-when-defined", "closing-failed", "failed-reservation-then-other", "large-table", "huge-table"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 600000 : 20000; }
        int cpu_limit_s() const override { return 90; }

        Scenario generate(Rng &g, u64 run) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            if (run % 20000 == 1000)    // takes seconds
                s.add("choices", {});
            u64 steps = g.range(2, g.chance(1, 4) ? 40 : 12);
            i64 cheap = g.chance(1, 150) ? 8 : 4;
            std::vector<unsigned> w = {10, 3, 3, 3, 1, 1, 2, 2, 1};
            for (auto &x : w)
                if (g.chance(1, 4))
                    x = 0;
            w[0]++;
            auto reserve = [&]() -> std::vector<i64> { return {i64(g.below(u64(cheap + 3))), i64(g.below(3))}; };
            for (u64 i = 0; i < steps; i++) {
                if (g.chance(1, 6))
                    s.add("fail", {g.range(1, 10)});
                switch (g.weighted(w)) {
                    case 0:
                        s.add("reserve", reserve());
                        break;
                    case 1:
                        s.add("reserve_dynamic", {i64(g.below(3))});
                        break;
                    case 2:
                        s.add("define", {i64(g.below(3)), i64(g.below(9)), i64(g.below(2))});
                        break;
                    case 3:
                        s.add("register", {i64(g.below(3)), g.range(2, 20), i64(g.below(50))});
                        break;
                    case 4:
                        s.add("unknown", {i64(g.below(6))});
                        break;
                    case 5:
                        s.add("register_dynamic", {i64(g.below(3))});
                        break;
                    case 6:
                        s.add("query", {i64(g.below(4))});
                        break;
                    case 7:
                        s.add("indices", {});
                        break;
                    case 8:
                        s.add("reserve_many", {i64(g.below(7)), g.range(2, 6)});
                        break;
                }
            }
            for (u64 k = g.below(3); k > 0; k--) {
                if (g.chance(1, 3))
                    s.add("generation_fails", {g.range(1, 2)});
                else
                    s.add("fail", {g.chance(1, 2) ? g.range(1, 20) : g.range(1, 400)});
                s.add("close", {i64(g.below(2))});
            }
            s.add("close", {i64(g.below(2))});
            for (u64 k = g.below(4); k > 0; k--)
                s.add(g.chance(1, 2) ? "reserve" : "reserve_dynamic", reserve());
            return s;
        }

        static std::string name_of(u64 i) {
            static const std::vector<std::string> names = {"byte_range_table", "binary_xor_table",    "binary_and_table",
                                                           "zkevm_opcodes",    "own_0",               "own_1",
                                                           "own_2",            "sha256_sparse_base4", "sha256_sparse_base7",
                                                           "chunk_16_bits",    "sha256_maj"};
            return names[i % names.size()];
        }

        // eight digits of base 7, each e + 2f + 3g of three bits: e ? f : g
        static void check_choices(Ctx &c) {
            c.probe("huge-table");
            library lib;
            lib.reserve_table("sha256_ch/full");
            auto &t = lib.get_reserved_tables().at("sha256_ch")->get_table();
            c.require(t.size() == 2 && t[0].size() == 5764801 && t[1].size() == 5764801, "content-wrong", "table sha256_ch has another size");
            for (u64 i = 0; i < 5764801; i++) {
                u64 bits = 0, left = i;
                for (unsigned k = 0; k < 8; k++, left /= 7)
                    bits |= u64(left % 7 == 3 || left % 7 > 4) << k;
                if (t[0][i] != value(bits) || t[1][i] != value(i))
                    c.require(false, "content-wrong", "row " + std::to_string(i) + " of table sha256_ch is wrong");
            }
        }

        struct reported {};

        // runs a library call; true: it failed because an injected failure struck
        template<typename F>
        bool call(Ctx &c, i64 nth, F f) {
            alloc::arm(nth);
            try {
                f();
            } catch (const std::bad_alloc &) {
                bool struck = alloc::fired();
                alloc::disarm();
                if (!struck)
                    throw;
                c.fault("allocation-failed");
                return true;
            } catch (const generation_failed &) {
                alloc::disarm();
                c.fault("generation-failed");
                return true;
            } catch (const std::logic_error &) {    // BOOST_ASSERT
                alloc::disarm();
                throw reported();
            } catch (...) {
                alloc::disarm();
                throw;
            }
            alloc::disarm();
            return false;
        }

        void execute(const Scenario &s, Ctx &c) override {
            library lib;
            int failures = 0;
            std::map<std::string, table_model> own_tables;
            auto model = [&](const std::string &n) -> const table_model & {
                auto it = own_tables.find(n);
                return it != own_tables.end() ? it->second : built_in().at(n);
            };
            std::vector<std::string> reserved;
            std::map<std::string, i64> dynamic;    // name -> tag of its definition, -1 undefined
            bool closed = false, closing = false, pending = false;
            i64 nth = 0;
            u64 inter = 1;
            auto own = [&](const std::string &n, std::size_t rows, std::size_t seed) {
                own_tables[n] = {own_table::make(rows, seed), true, {{"full", {{0, 1}, 0, rows - 1}}, {"second", {{1}, 0, rows - 1}}}};
                return std::make_shared<own_table>(n, rows, seed, &failures);
            };
            for (int i = 0; i < 3; i++)
                lib.register_lookup_table(own("own_" + std::to_string(i), 3 + i, i));
            auto index_of = [&](const std::string &n) {
                return std::size_t(std::find(reserved.begin(), reserved.end(), n) - reserved.begin());
            };
            auto check_indices = [&]() {
                auto &b = lib.get_reserved_indices();
                c.require(b.size() == reserved.size(), "index-wrong",
                          std::to_string(b.size()) + " tables have an index, " + std::to_string(reserved.size()) + " are reserved");
                for (std::size_t i = 0; i < reserved.size(); i++) {
                    auto l = b.left.find(reserved[i]);
                    auto r = b.right.find(i + 1);
                    c.require(l != b.left.end() && l->second == i + 1 && r != b.right.end() && r->second == reserved[i], "index-wrong",
                              reserved[i] + " does not have index " + std::to_string(i + 1));
                }
            };
            auto must_report = [&](const std::string &what, const std::function<void()> &f) {
                try {
                    call(c, 0, f);
                } catch (const reported &) {
                    c.event("refused " + what);
                    check_indices();
                    return;
                }
                c.require(false, "not-refused", what + " was accepted");
            };
            auto do_reserve = [&](const std::string &n, bool dyn) {
                auto again = [&](i64 k) {
                    return call(c, k, [&] { dyn ? lib.reserve_dynamic_table(n) : lib.reserve_table(n); });
                };
                bool known = index_of(n) < reserved.size();
                c.probe("repeated-reservation", known);
                c.probe("failed-reservation-then-other", pending);
                if (again(nth)) {
                    nth = 0;
                    c.event("failed " + n);
                    if (!dyn && (n.size() % 2 || known)) {    // given up; must leave no trace
                        pending = true;
                        check_indices();
                        return;
                    }
                    c.require(!again(0), "failed-without-reason", "a repeated reservation failed");
                }
                if (!known)
                    reserved.push_back(n);
                if (dyn)
                    dynamic.emplace(n, -1);
                c.event("reserve " + n);
            };
            for (auto &st : s.steps) {
                c.sim_steps++;
                inter = mix(fnv(st.op, inter), u64(st.arg(0)) * 64 + u64(st.arg(1)));
                c.state(inter);
                if (st.op == "fail") {
                    nth = std::max<i64>(0, st.arg(0));
                    continue;
                }
                if (st.op == "generation_fails") {
                    failures = int(u64(st.arg(0)) % 3);
                    continue;
                }
                if (st.op == "choices") {
                    check_choices(c);
                    continue;
                }
                if (closing && st.op != "close")
                    continue;
                if (st.op == "reserve" || st.op == "reserve_many") {
                    std::size_t many = st.op == "reserve" ? 1 : 1 + u64(st.arg(1)) % 6;
                    for (std::size_t i = 0; i < many; i++) {
                        std::string n = name_of(u64(st.arg(0)) + i);
                        auto &subs = model(n).subs;
                        auto it = subs.begin();
                        std::advance(it, (st.op == "reserve" ? u64(st.arg(1)) : i) % subs.size());
                        std::string full = n + "/" + it->first;
                        c.probe("large-table", u64(st.arg(0)) % 11 >= 7);
                        if (closed) {
                            c.fault("late-reservation");
                            must_report("reservation of " + full + " after closing", [&] { lib.reserve_table(full); });
                        } else {
                            for (auto &r : reserved)
                                c.probe("two-subtables-of-one-table", r != full && r.compare(0, n.size() + 1, n + "/") == 0);
                            do_reserve(full, false);
                        }
                    }
                } else if (st.op == "reserve_dynamic") {
                    std::string n = "dynamic_" + std::to_string(u64(st.arg(0)) % 3);
                    if (closed) {
                        c.fault("late-reservation");
                        must_report("reservation of " + n + " after closing", [&] { lib.reserve_dynamic_table(n); });
                    } else {
                        c.probe("dynamic-reserved-when-defined", dynamic.count(n) && dynamic[n] >= 0);
                        do_reserve(n, true);
                    }
                } else if (st.op == "register_dynamic") {
                    std::string n = "dynamic_" + std::to_string(u64(st.arg(0)) % 3);
                    if (closed || dynamic.count(n))
                        continue;
                    if (call(c, nth, [&] { lib.register_dynamic_table(n); }))
                        c.require(!call(c, 0, [&] { lib.register_dynamic_table(n); }), "failed-without-reason", "a repeated registration failed");
                    dynamic[n] = -1;
                    c.event("register " + n);
                } else if (st.op == "define") {
                    std::string n = "dynamic_" + std::to_string(u64(st.arg(0)) % 3);
                    auto it = dynamic.find(n);
                    if (closed || (it == dynamic.end() && u64(st.arg(2)) % 2 == 0) || (it != dynamic.end() && it->second >= 0))
                        continue;
                    lookup_table t(1, u64(st.arg(1)));
                    t.append_option({constraint(var(0, 0))});
                    if (call(c, nth, [&] { lib.define_dynamic_table(n, t); }))
                        c.require(!call(c, 0, [&] { lib.define_dynamic_table(n, t); }), "failed-without-reason", "a repeated definition failed");
                    dynamic[n] = i64(u64(st.arg(1)));
                    c.probe("dynamic-defined");
                    c.event("define " + n);
                } else if (st.op == "register") {
                    if (closed)
                        continue;
                    std::string n = "own_" + std::to_string(u64(st.arg(0)) % 3);
                    for (auto &r : reserved)
                        c.probe("table-replaced-after-reservation", r.compare(0, n.size() + 1, n + "/") == 0);
                    lib.register_lookup_table(own(n, 1 + u64(st.arg(1)) % 32, u64(st.arg(2))));
                    c.event("register " + n);
                } else if (st.op == "unknown") {
                    static const std::vector<std::string> bad = {"nowhere/full", "byte_range_table/half", "byte_range_table", "", "own_0/",
                                                                 "/full"};
                    std::string n = bad[u64(st.arg(0)) % bad.size()];
                    c.fault(n.compare(0, 3, "byt") == 0 || n.compare(0, 3, "own") == 0 ? "unknown-subtable" : "unknown-table");
                    must_report("reservation of '" + n + "'", [&] { lib.reserve_table(n); });
                } else if (st.op == "query") {
                    std::string n = "dynamic_" + std::to_string(u64(st.arg(0)) % 4);
                    auto it = dynamic.find(n);
                    if (it != dynamic.end() && it->second >= 0) {
                        auto d = lib.get_dynamic_table_definition(n);
                        c.require(d && d->is_defined() && d->lookup_table.tag_index == u64(it->second), "definition-wrong",
                                  "definition of " + n + " is not the one given");
                    } else {
                        c.fault("undefined-query");
                        must_report("query of undefined " + n, [&] { lib.get_dynamic_table_definition(n); });
                    }
                } else if (st.op == "indices") {
                    check_indices();
                } else if (st.op == "close") {
                    bool failed = call(c, nth, [&] { u64(st.arg(0)) % 2 ? void(lib.get_reserved_dynamic_tables()) : void(lib.get_reserved_tables()); });
                    c.event(failed ? "closing failed" : "closed");
                    c.probe("closing-failed", failed);
                    closing = true;
                    closed = !failed;
                    if (closed)
                        closing = false;
                }
                nth = 0;
            }
            check_indices();
            failures = 0;
            auto &filled = lib.get_reserved_tables();
            std::map<std::string, std::set<std::string>> want;
            std::set<std::string> want_dynamic;
            for (auto &r : reserved) {
                if (r.find('/') == std::string::npos)
                    want_dynamic.insert(r);
                else
                    want[r.substr(0, r.find('/'))].insert(r.substr(r.find('/') + 1));
            }
            c.require(filled.size() == want.size(), "tables-wrong",
                      std::to_string(filled.size()) + " tables are filled, " + std::to_string(want.size()) + " are reserved");
            for (auto &w : want) {
                auto it = filled.find(w.first);
                c.require(it != filled.end() && it->second, "tables-wrong", "reserved table " + w.first + " is missing");
                auto &m = model(w.first);
                c.require(it->second->get_table() == m.full, "content-wrong", "content of table " + w.first + " is not the full one");
                c.require(it->second->table_name == w.first, "tables-wrong", "table " + w.first + " has another name");
                c.require(it->second->subtables.size() == w.second.size(), "subtables-wrong",
                          "table " + w.first + " has " + std::to_string(it->second->subtables.size()) + " subtables, " +
                              std::to_string(w.second.size()) + " are reserved");
                for (auto &n : w.second) {
                    auto f = it->second->subtables.find(n);
                    auto &e = m.subs.at(n);
                    c.require(f != it->second->subtables.end() && f->second.column_indices == e.cols && f->second.begin == e.begin &&
                                  f->second.end == e.end,
                              "subtables-wrong", "subtable " + w.first + "/" + n + " is missing or describes other cells");
                    for (auto col : f->second.column_indices)
                        c.require(col < m.full.size() && f->second.end < m.full[col].size(), "subtables-wrong",
                                  "subtable " + w.first + "/" + n + " reaches outside its table");
                }
            }
            auto &dyn = lib.get_reserved_dynamic_tables();
            c.require(dyn.size() == want_dynamic.size(), "tables-wrong", "number of dynamic tables is wrong");
            for (auto &n : want_dynamic) {
                auto it = dyn.find(n);
                i64 tag = dynamic.at(n);
                c.require(it != dyn.end() && it->second && it->second->is_defined() == (tag >= 0) &&
                              (tag < 0 || it->second->lookup_table.tag_index == u64(tag)),
                          "definition-wrong", "dynamic table " + n + " does not have the definition given");
            }
            c.nontrivial = reserved.size() > 1;
        }
    };
}    // namespace

int main(int argc, char **argv) {
    built_in();    // once, before the runs are forked
    C07 h;
    return sim::main(h, argc, argv);
}
