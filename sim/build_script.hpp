// A small language of building operations on one shared circuit and one shared table, each done by some prover through
// its views or directly.  Used where a property compares whole building runs with each other (reproducibility, failed
// allocations) or needs varied contents (exports).
#ifndef VERIF_BUILD_SCRIPT_HPP
#define VERIF_BUILD_SCRIPT_HPP

#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>

#include "plonk_kit.hpp"

namespace kit {
    typedef nil::blueprint::circuit_proxy<arith> circuit_view;
    typedef nil::blueprint::assignment_proxy<arith> table_view;

    class tiny_table : public nil::crypto3::zk::snark::lookup_table_definition<field> {
    public:
        std::size_t rows;
        tiny_table(const std::string &n, std::size_t r) : nil::crypto3::zk::snark::lookup_table_definition<field>(n), rows(r) {
            this->subtables["full"] = {{0, 1}, 0, r - 1};
            this->subtables["half"] = {{1}, 0, r - 1};
        }
        virtual void generate() {
            std::vector<std::vector<value>> t(2);
            for (std::size_t i = 0; i < rows; i++) {
                t[0].push_back(i);
                t[1].push_back(i * rows + 1);
            }
            this->_table = std::move(t);
        }
        virtual std::size_t get_columns_number() { return 2; }
        virtual std::size_t get_rows_number() { return rows; }
    };

    inline const std::vector<std::string> &table_names() {
        static const std::vector<std::string> n = {"tiny0/full", "tiny0/half", "tiny1/full", "tiny1/half", "byte_range_table/full",
                                                   "binary_xor_table/full"};
        return n;
    }

    struct op_failed {};    // the library call ran out of memory

    struct world {
        std::shared_ptr<circuit_t> bp;
        std::shared_ptr<table_t> tab;
        std::vector<circuit_view> cv;
        std::vector<table_view> tv;
        std::vector<var> handed;
        std::set<std::string> dynamic, defined;
        std::size_t n;
        i64 fail_nth = 0;    // fail this allocation of the next library call
        bool fired = false;
        bool closed = false;

        world(std::size_t provers, std::size_t w, std::size_t p, std::size_t c, std::size_t s) : n(provers) {
            bp = std::make_shared<circuit_t>();
            tab = std::make_shared<table_t>(w, p, c, s);
            for (std::size_t i = 0; i < n; i++) {
                cv.emplace_back(bp, i);
                tv.emplace_back(tab, i);
            }
            circuit_t &b = *bp;
            b.register_lookup_table(std::make_shared<tiny_table>("tiny0", 3));
            b.register_lookup_table(std::make_shared<tiny_table>("tiny1", 5));
        }

        template<typename F>
        void lib(F f) {
            if (!fail_nth) {
                f();
                return;
            }
            sim::alloc::arm(fail_nth);
            try {
                f();
            } catch (const std::bad_alloc &) {
                bool struck = sim::alloc::fired();
                sim::alloc::disarm();
                if (!struck)
                    throw;
                fired = true;
                throw op_failed();
            } catch (...) {
                sim::alloc::disarm();
                throw;
            }
            fired = sim::alloc::fired();
            sim::alloc::disarm();
        }

        std::size_t actor(const sim::Step &st) const { return u64(st.arg(0)) % (n + 1); }
        circuit_t &circuit_of(std::size_t p) { return p == n ? *bp : static_cast<circuit_t &>(cv[p]); }
        table_t &table_of(std::size_t p) { return p == n ? *tab : static_cast<table_t &>(tv[p]); }

        static var cell(u64 k, u64 w = 2, u64 c = 2) {
            k %= 64;
            return k % 4 == 3 ? absolute(1, 0, k / 8) : k % 4 == 2 ? absolute(2, (k / 4) % c, k / 8) : absolute(0, (k / 4) % w, k / 8);
        }

        // An operation with the columns it means now.  Operations whose meaning depends on more than that are not deferrable.
        sim::Step resolved(sim::Step st) const {
            auto fix = [&](std::size_t i, std::size_t amount) {
                if (i < st.a.size() && amount)
                    st.a[i] = i64(u64(st.a[i]) % amount);
            };
            const table_t &t = *tab;
            if (st.op == "write") {
                u64 k = u64(st.arg(1)) % 4;
                fix(2, k == 0 ? t.witnesses_amount() : k == 1 ? t.public_inputs_amount() : k == 2 ? t.constants_amount() : t.selectors_amount());
            } else if (st.op == "enable" || st.op == "enable_range") {
                fix(1, t.selectors_amount());
            } else if (st.op == "fill") {
                fix(2, u64(st.arg(1)) % 2 ? t.selectors_amount() : t.constants_amount());
            }
            return st;
        }
        static bool deferrable(const sim::Step &st) {
            return st.op != "attach" && st.op != "attachl" && st.op != "copy" && st.op.compare(0, 5, "share") != 0 && st.op != "add_columns" &&
                   st.op != "reserve_dynamic" && st.op != "define_dynamic";
        }

        // The result of the operation, or "-" when the operation does not make sense in this state.
        std::string apply(const sim::Step &st) {
            std::size_t p = actor(st);
            circuit_t &b = circuit_of(p);
            table_t &t = table_of(p);
            const table_t &ct = *tab;
            std::size_t sel = 0;
            if (st.op == "gate" || st.op == "gate1") {
                std::vector<constraint> cs;
                for (std::size_t i = 3; i < st.a.size(); i++)
                    cs.push_back(make_constraint(make_poly(u64(st.a[i])), u64(st.arg(1)) ? u64(st.arg(1)) * 10 + i : 0));
                if (cs.empty())
                    return "-";
                bool il = u64(st.arg(2)) % 2;
                if (st.op == "gate1")
                    lib([&] { sel = b.add_gate(cs[0]); });
                else if (il && cs.size() == 2)
                    lib([&] { sel = b.add_gate({cs[0], cs[1]}); });
                else
                    lib([&] { sel = b.add_gate(cs); });
                return "sel" + std::to_string(sel);
            }
            if (st.op == "lookup" || st.op == "lookup1") {
                std::vector<lookup_constraint> ls;
                for (std::size_t i = 3; i + 1 < st.a.size(); i += 2) {
                    lookup_constraint lc;
                    lc.table_id = std::max<u64>(1, u64(st.a[i]) % 8);
                    lc.lookup_input.push_back(make_constraint(make_poly(u64(st.a[i + 1])), u64(st.arg(1)) ? u64(st.arg(1)) * 10 + i : 0));
                    ls.push_back(lc);
                }
                if (ls.empty())
                    return "-";
                bool il = u64(st.arg(2)) % 2;
                if (st.op == "lookup1")
                    lib([&] { sel = b.add_lookup_gate(ls[0]); });
                else if (il && ls.size() == 2)
                    lib([&] { sel = b.add_lookup_gate({ls[0], ls[1]}); });
                else
                    lib([&] { sel = b.add_lookup_gate(ls); });
                return "sel" + std::to_string(sel);
            }
            if (st.op == "attach" || st.op == "attachl") {
                std::size_t next = bp->get_next_selector_index();
                if (!next)
                    return "-";
                constraint e = make_constraint(make_poly(u64(st.arg(2))), 0);
                if (st.op == "attach") {
                    std::vector<constraint> cs = {e};
                    lib([&] { sel = b.add_gate(u64(st.arg(1)) % next, cs); });
                } else {
                    lookup_constraint lc;
                    lc.table_id = std::max<u64>(1, u64(st.arg(3)) % 8);
                    lc.lookup_input.push_back(e);
                    std::vector<lookup_constraint> ls = {lc};
                    lib([&] { sel = b.add_lookup_gate(u64(st.arg(1)) % next, ls); });
                }
                return "sel" + std::to_string(sel);
            }
            if (st.op == "selector") {
                lib([&] { sel = b.get_dynamic_lookup_table_selector(); });
                return "sel" + std::to_string(sel);
            }
            if (st.op == "copy") {
                var x = cell(u64(st.arg(1))), y = cell(u64(st.arg(2)));
                if (!handed.empty() && u64(st.arg(3)) % 3 == 1)
                    y = handed[u64(st.arg(2)) % handed.size()];
                if (u64(st.arg(3)) % 7 == 2)
                    y.index = table_t::private_storage_index;
                copy_constraint cc(x, y);
                lib([&] { b.add_copy_constraint(cc); });
                return "copied";
            }
            if (st.op == "close") {
                std::size_t size = 0;
                lib([&] { size = b.get_reserved_tables().size(); });
                closed = true;
                return "closed " + std::to_string(size);
            }
            if (closed && st.op.compare(0, 7, "reserve") == 0)
                return "-";
            if (st.op == "reserve") {
                std::string name = table_names()[u64(st.arg(1)) % table_names().size()];
                lib([&] { b.reserve_table(name); });
                return "reserved " + std::to_string(bp->get_reserved_indices().at(name));
            }
            if (st.op == "reserve_dynamic") {
                std::string name = "dynamic_" + std::to_string(u64(st.arg(1)) % 3);
                if (dynamic.count(name))
                    return "-";
                lib([&] { b.reserve_dynamic_table(name); });
                dynamic.insert(name);
                return "reserved " + std::to_string(bp->get_reserved_indices().at(name));
            }
            if (st.op == "define_dynamic") {
                std::string name = "dynamic_" + std::to_string(u64(st.arg(1)) % 3);
                if (closed || !dynamic.count(name) || defined.count(name))
                    return "-";
                lookup_table d(1, u64(st.arg(2)));
                d.append_option({constraint(var(0, 0))});
                lib([&] { b.define_dynamic_table(name, d); });
                defined.insert(name);
                return "defined";
            }
            if (st.op == "add_table") {
                lookup_table d(1, u64(st.arg(1)));
                lib([&] { b.add_lookup_table(d); });
                return "added";
            }
            if (st.op == "write") {
                int k = int(u64(st.arg(1)) % 4);
                std::size_t col = u64(st.arg(2)), row = u64(st.arg(3)) % 64;
                value v = k == 3 ? value(u64(st.arg(4)) % 2) : make_value(u64(st.arg(4)));
                switch (k) {
                    case 0:
                        lib([&] { t.witness(col % ct.witnesses_amount(), row) = v; });
                        break;
                    case 1:
                        lib([&] { t.public_input(col % ct.public_inputs_amount(), row) = v; });
                        break;
                    case 2:
                        lib([&] { t.constant(col % ct.constants_amount(), row) = v; });
                        break;
                    default:
                        lib([&] { t.selector(col % ct.selectors_amount(), row) = v; });
                }
                return "written";
            }
            if (st.op == "enable") {
                std::size_t col = u64(st.arg(1)) % ct.selectors_amount(), row = u64(st.arg(2)) % 64;
                lib([&] { t.enable_selector(col, row); });
                return "enabled";
            }
            if (st.op == "enable_range") {
                std::size_t col = u64(st.arg(1)) % ct.selectors_amount(), row = u64(st.arg(2)) % 64;
                lib([&] { t.enable_selector(col, row, row + u64(st.arg(3)) % 8, std::max<u64>(1, u64(st.arg(4)) % 4)); });
                return "enabled";
            }
            if (st.op == "fill") {
                bool s = u64(st.arg(1)) % 2;
                column x;
                for (u64 i = 0; i < u64(st.arg(4)) % 16; i++)
                    x.push_back(s ? value(i % 2) : make_value(u64(st.arg(3)) + i));
                if (s)
                    lib([&] { t.fill_selector(u64(st.arg(2)) % ct.selectors_amount(), x); });
                else
                    lib([&] { t.fill_constant(u64(st.arg(2)) % ct.constants_amount(), x); });
                return "filled";
            }
            if (st.op == "store") {
                value v = make_value(u64(st.arg(2)));
                lib([&] { t.private_storage(u64(st.arg(1)) % 16) = v; });
                return "stored";
            }
            if (st.op == "batch" || st.op == "batch_constant") {
                value v = make_value(u64(st.arg(1)));
                var x;
                if (st.op == "batch")
                    lib([&] { x = t.add_batch_variable(v); });
                else
                    lib([&] { x = t.add_batch_constant_variable(v); });
                handed.push_back(x);
                return text(x);
            }
            if (st.op == "share") {
                if (p == n)
                    return "-";
                // only cells that hold a value, or variables handed out before
                std::vector<var> all = handed;
                for (int k : {0, 2})
                    for (std::size_t col = 0; col < (k ? ct.constants_amount() : ct.witnesses_amount()); col++) {
                        std::size_t size = k ? ct.constant_column_size(col) : ct.witness_column_size(col);
                        for (std::size_t row = 0; row < size; row++)
                            all.push_back(absolute(k, col, row));
                    }
                if (all.empty())
                    return "-";
                var x = all[u64(st.arg(1)) % all.size()], y;
                lib([&] { y = save_shared_var(tv[p], x); });
                handed.push_back(y);
                return text(y);
            }
            if (st.op == "share2") {
                if (p == n || handed.empty())
                    return "-";
                std::vector<var> from = {handed[u64(st.arg(1)) % handed.size()], handed[u64(st.arg(2)) % handed.size()]}, to;
                lib([&] { to = save_shared_var(tv[p], from); });
                for (auto &x : to)
                    handed.push_back(x);
                return text(to[0]) + text(to[1]);
            }
            if (st.op == "add_columns") {
                u64 more = u64(st.arg(2)) % 3;
                auto size = [&](std::size_t now) { return std::uint32_t(std::min<std::size_t>(10, now + more)); };
                switch (u64(st.arg(1)) % 4) {
                    case 0:
                        lib([&] { t.resize_witnesses(size(ct.witnesses_amount())); });
                        break;
                    case 1:
                        lib([&] { t.resize_public_inputs(size(ct.public_inputs_amount())); });
                        break;
                    case 2:
                        lib([&] { t.resize_constants(size(ct.constants_amount())); });
                        break;
                    default:
                        lib([&] { t.resize_selectors(size(ct.selectors_amount())); });
                }
                return "resized";
            }
            return "-";
        }

        // everything that can be seen of the circuit, the table and the views
        std::string dump() {
            std::ostringstream o;
            const circuit_t &b = *bp;
            for (auto &g : b.gates()) {
                o << "gate " << g.selector_index << ":";
                for (auto &c : g.constraints)
                    o << " " << meaning(c);
                o << "\n";
            }
            for (auto &g : b.lookup_gates()) {
                o << "lookup " << g.tag_index << ":";
                for (auto &c : g.constraints)
                    o << " " << meaning(c);
                o << "\n";
            }
            for (auto &c : b.copy_constraints())
                o << "copy " << text(c.first) << " " << text(c.second) << "\n";
            for (auto &t : b.lookup_tables())
                o << "table " << t.tag_index << "\n";
            o << "next " << b.get_next_selector_index() << "\n";
            for (auto &x : b.get_reserved_indices())
                o << "reserved " << x.first << " " << x.second << "\n";
            o << contents(*tab) << "allocated " << tab->allocated_rows() << " rows " << tab->rows_amount() << "\n";
            for (std::size_t i = 0; i < tab->private_storage_size(); i++)
                o << "stored " << text(static_cast<const table_t &>(*tab).private_storage(i)) << "\n";
            o << "batched " << tab->batch_private_storage_size() << "\n";
            for (auto &x : handed)
                o << "handed " << text(x) << " " << text(var_value(*tab, x)) << "\n";
            o << "lookup columns " << list(tab->get_lookup_constant_cols()) << list(tab->get_lookup_selector_cols()) << "\n";
            for (std::size_t i = 0; i < n; i++)
                o << "view " << i << " " << list(cv[i].get_used_gates()) << list(cv[i].get_used_lookup_gates())
                  << list(cv[i].get_used_copy_constraints()) << list(cv[i].get_used_lookup_tables()) << list(tv[i].get_used_rows())
                  << list(tv[i].get_used_selector_rows()) << "\n";
            return o.str();
        }
        // enough to tell whether an operation reached the shared circuit or table
        std::string sizes() {
            const circuit_t &b = *bp;
            std::ostringstream o;
            o << b.num_gates() << " " << b.num_lookup_gates() << " " << b.copy_constraints().size() << " " << b.lookup_tables().size() << " "
              << b.get_next_selector_index() << " " << b.get_reserved_indices().size() << " " << tab->batch_private_storage_size() << " "
              << tab->shared_column_size(0);
            return o.str();
        }
        // closes the reservation
        std::string close_and_dump_tables() {
            std::ostringstream o;
            for (auto &t : bp->get_reserved_tables()) {
                o << "filled " << t.first << " subtables";
                for (auto &s : t.second->subtables)
                    o << " " << s.first;
                o << "\n";
                for (auto &col : t.second->get_table()) {
                    for (auto &v : col)
                        o << text(value(v)) << ",";
                    o << "\n";
                }
            }
            for (auto &t : bp->get_reserved_dynamic_tables())
                o << "dynamic " << t.first << " " << t.second->is_defined() << "\n";
            return o.str();
        }
        // every export there is
        std::string exports() {
            std::ostringstream o;
            cout_catcher quiet;
            bp->export_circuit(o);
            tab->export_table(o);
            for (std::size_t i = 0; i < n; i++) {
                cv[i].export_circuit(o);
                tv[i].export_table(o);
            }
            return o.str();
        }
    };

    // the first difference of two dumps, by line
    inline std::string first_difference(const std::string &a, const std::string &b) {
        std::istringstream x(a), y(b);
        std::string l, r;
        for (;;) {
            bool gl = bool(std::getline(x, l)), gr = bool(std::getline(y, r));
            if (!gl && !gr)
                return "";
            if (!gl || !gr || l != r)
                return "'" + (gl ? l.substr(0, 160) : "(end)") + "' against '" + (gr ? r.substr(0, 160) : "(end)") + "'";
        }
    }

    // a random operation; base/fam choose the pool of gates
    inline sim::Step random_op(Rng &g, i64 actor, u64 base, u64 fam, i64 rows, const std::vector<unsigned> &w) {
        auto k = [&]() { return i64((base + g.below(fam)) * 8 + g.below(8)); };
        switch (g.weighted(w)) {
            case 0: {
                std::vector<i64> a = {actor, i64(g.below(3)), i64(g.below(2))};
                for (i64 m = g.range(1, 3); m > 0; m--)
                    a.push_back(k());
                return {"gate", a};
            }
            case 1:
                return {"gate1", {actor, i64(g.below(3)), 0, k()}};
            case 2: {
                std::vector<i64> a = {actor, i64(g.below(3)), i64(g.below(2))};
                for (i64 m = g.range(1, 3); m > 0; m--)
                    a.push_back(g.range(1, 3)), a.push_back(k());
                return {"lookup", a};
            }
            case 3:
                return {"lookup1", {actor, i64(g.below(3)), 0, g.range(1, 3), k()}};
            case 4:
                return {"attach", {actor, i64(g.below(1000)), k()}};
            case 5:
                return {"attachl", {actor, i64(g.below(1000)), k(), g.range(1, 3)}};
            case 6:
                return {"selector", {actor}};
            case 7:
                return {"copy", {actor, i64(g.below(64)), i64(g.below(64)), i64(g.below(21))}};
            case 8:
                return {"reserve", {actor, i64(g.below(table_names().size()))}};
            case 9:
                return {"reserve_dynamic", {actor, i64(g.below(3))}};
            case 10:
                return {"define_dynamic", {actor, i64(g.below(3)), i64(g.below(9))}};
            case 11:
                return {"add_table", {actor, i64(g.below(50))}};
            case 12:
                return {"write", {actor, i64(g.below(4)), i64(g.below(4)), i64(g.below(rows)), i64(g.below(60))}};
            case 13:
                return {"enable", {actor, i64(g.below(4)), i64(g.below(rows))}};
            case 14:
                return {"enable_range", {actor, i64(g.below(4)), i64(g.below(rows)), i64(g.below(6)), g.range(1, 3)}};
            case 15:
                return {"fill", {actor, i64(g.below(2)), i64(g.below(4)), i64(g.below(60)), i64(g.below(8))}};
            case 16:
                return {"store", {actor, i64(g.below(6)), i64(g.below(60))}};
            case 17:
                return {"batch", {actor, i64(g.below(60))}};
            case 18:
                return {"batch_constant", {actor, i64(g.below(8))}};
            case 19:
                return {"share", {actor, i64(g.below(64))}};
            case 20:
                return {"share2", {actor, i64(g.below(64)), i64(g.below(64))}};
            default:
                return {"add_columns", {actor, i64(g.below(4)), g.range(1, 2)}};
        }
    }
    inline std::vector<unsigned> op_weights(Rng &g) {
        std::vector<unsigned> w = {8, 3, 4, 2, 2, 2, 2, 8, 3, 2, 2, 2, 14, 6, 2, 2, 3, 4, 4, 3, 1, 1};
        for (auto &x : w)
            if (g.chance(1, 4))
                x = 0;
        w[12]++;
        return w;
    }
}    // namespace kit

#endif
