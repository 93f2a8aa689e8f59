// C13: zkEVM traces are satisfied and hold the machine's results however opcodes follow each other.
#include "plonk_kit.hpp"

#include <functional>

#include <boost/assert.hpp>

// the zkEVM headers give this assertion messages that are not C strings
namespace boost {
    template<typename Message>
    void assertion_failed_msg(char const *expr, const Message &, char const *function, char const *file, long line) {
        assertion_failed(expr, function, file, line);
    }
}    // namespace boost

#include <nil/crypto3/algebra/curves/alt_bn128.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/alt_bn128.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/goldilocks64.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>
#include <nil/blueprint/zkevm/zkevm_circuit.hpp>

using namespace sim;

namespace {
    typedef boost::multiprecision::cpp_int big;
    typedef nil::blueprint::zkevm_opcode opcode;
    typedef nil::blueprint::zkevm_word_type word;

    const big &two256() {
        static const big v = big(1) << 256;
        return v;
    }
    const opcode codes[] = {opcode::ISZERO, opcode::ADD, opcode::SUB, opcode::MUL, opcode::DIV};
    const char *const names[] = {"ISZERO", "ADD", "SUB", "MUL", "DIV"};

    big result_of(int op, const big &a, const big &b) {
        switch (op) {
            case 0:
                return a == 0 ? 1 : 0;
            case 1:
                return (a + b) % two256();
            case 2:
                return (a + two256() - b) % two256();
            case 3:
                return a * b % two256();
            default:
                return b == 0 ? big(0) : big(a / b);
        }
    }
    std::size_t operands(int op) {
        return op == 0 ? 1 : 2;
    }

    big random_word(u64 seed) {
        Rng g(seed * 0x9E3779B97F4A7C15ull + 11);
        big r = 0;
        switch (g.below(8)) {
            case 0:
                return g.below(3);
            case 1:
                return two256() - 1 - g.below(3);
            case 2:
                return (big(1) << unsigned(g.below(256))) - (g.chance(1, 2) ? 1 : 0);
            case 3:
                return g.below(100000);
            case 4:    // chunks that are all zeros or all ones
                for (int i = 0; i < 16; i++)
                    r = (r << 16) + (g.chance(1, 2) ? 0xffff : 0);
                return r;
            case 5: {    // a few non-zero chunks
                u64 mask = g.next() & g.next();
                for (int i = 0; i < 16; i++)
                    r = (r << 16) + (mask >> i & 1 ? g.below(65536) : 0);
                return r;
            }
            default:
                for (int i = 0; i < 16; i++)
                    r = (r << 16) + g.below(65536);
                return r >> unsigned(g.chance(1, 3) ? g.below(256) : 0);
        }
    }
    word to_word(const big &v) {
        word r = 0u;
        for (int i = 3; i >= 0; i--) {
            r = r << 32;
            r = r << 32;
            r = r + word(std::uint64_t((v >> unsigned(64 * i)) & 0xffffffffffffffffull));
        }
        return r;
    }
    big from_word(const word &w) {
        std::ostringstream o;
        o << std::hex << w;
        return big("0x" + o.str());
    }
    std::string hex(const big &v) {
        std::ostringstream o;
        o << std::hex << v;
        return o.str();
    }

    template<typename Field>
    struct trace_of {
        typedef typename Field::value_type value;
        typedef nil::crypto3::zk::snark::plonk_constraint_system<Field> arith;
        typedef nil::blueprint::circuit<arith> circuit_t;
        typedef nil::blueprint::assignment<arith> table_t;
        typedef nil::blueprint::zkevm_circuit<Field> evm_t;
        typedef nil::crypto3::zk::snark::plonk_variable<value> var;
        typedef nil::blueprint::components::state_selector<arith, Field> selector_t;

        struct entry {
            int op;
            big a, b, r;
            std::size_t row, height;
        };

        // one prover: a table, a circuit, a machine
        struct prover {
            circuit_t bp;
            table_t tab;
            evm_t evm;
            nil::blueprint::zkevm_machine_interface machine;
            std::vector<big> stack;
            std::vector<entry> done;

            // a state that follows given rules, in its own table
            std::vector<nil::blueprint::zkevm_state_transition> rules;
            std::vector<std::array<i64, 4>> states = {{1, 0, 0, 0}};

            prover(std::size_t w, std::size_t s, std::size_t start) : tab(w, 0, 0, s), evm(tab, bp, start) {}

            void push(const big &v) {
                machine.stack.push(to_word(v));
                stack.push_back(v);
            }
            void set_state(u64 which, u64 v) {
                auto &st = evm.get_state();
                auto &x = which % 4 == 0 ? st.pc : which % 4 == 1 ? st.stack_size : which % 4 == 2 ? st.memory_size : st.curr_gas;
                x.set_value(value(v));
            }
            void shuffle(bool swap) {
                if (stack.size() < 2)
                    return;
                if (swap) {
                    machine.stack.swap();
                    std::swap(stack.back(), stack[stack.size() - 2]);
                } else {
                    machine.stack.dup();
                    stack.push_back(stack.back());
                }
            }
            static nil::blueprint::transition_type *rule(nil::blueprint::zkevm_state_transition &t, std::size_t i) {
                return i == 0 ? &t.pc : i == 1 ? &t.stack_size : i == 2 ? &t.memory_size : &t.curr_gas;
            }
            // whether the rule lets a value be followed by another, and a value it lets follow
            static bool allowed(const nil::blueprint::transition_type &t, std::size_t i, i64 from, i64 to) {
                typedef nil::blueprint::transition_type tt;
                switch (t.t) {
                    case tt::ANY:
                        return true;
                    case tt::SAME_VALUE:
                        return to == from;
                    case tt::DELTA:
                        return to == from + t.value;
                    case tt::NEW_VALUE:
                        return to == t.value;
                    default:
                        return to == from + (i == 0 ? 1 : 0);
                }
            }
            static i64 follow(const nil::blueprint::transition_type &t, std::size_t i, i64 from, u64 any) {
                typedef nil::blueprint::transition_type tt;
                return t.t == tt::ANY         ? i64(any % 1000)
                       : t.t == tt::DELTA     ? from + t.value
                       : t.t == tt::NEW_VALUE ? t.value
                       : t.t == tt::DEFAULT   ? from + (i == 0 ? 1 : 0)
                                              : from;
            }
            void transition(u64 kinds, i64 amount, bool frozen) {
                typedef nil::blueprint::transition_type tt;
                static const tt::type all[] = {tt::DEFAULT, tt::ANY, tt::SAME_VALUE, tt::DELTA, tt::NEW_VALUE};
                nil::blueprint::zkevm_state_transition t;
                std::array<i64, 4> next;
                if (frozen)
                    t = nil::blueprint::generate_frozen_state_transition();
                for (std::size_t i = 0; i < 4; i++, kinds /= 5) {
                    if (!frozen) {
                        rule(t, i)->t = all[kinds % 5];
                        rule(t, i)->value = amount + i64(i) * 7 * (amount < 0 ? -1 : 1);
                        next[i] = follow(*rule(t, i), i, states.back()[i], kinds + u64(amount));
                    } else
                        next[i] = states.back()[i];
                }
                rules.push_back(t);
                states.push_back(next);
            }
            bool rules_kept() {
                typedef nil::blueprint::state_var<Field> state_var;
                circuit_t b;
                std::size_t shift = rules.size() % 3;
                table_t t(4 + shift, 0, 0, 0);
                nil::blueprint::zkevm_state<Field> st;
                auto column = [&](std::size_t i) { return state_var(3 - i + shift, var::column_type::witness, value(0)); };
                st.pc = column(0), st.stack_size = column(1), st.memory_size = column(2), st.curr_gas = column(3);
                for (std::size_t r = 0; r < states.size(); r++) {
                    state_var *v[] = {&st.pc, &st.stack_size, &st.memory_size, &st.curr_gas};
                    for (std::size_t i = 0; i < 4; i++)
                        v[i]->set_and_assign_value(t, std::uint32_t(r), states[r][i] < 0 ? -value(u64(-states[r][i])) : value(u64(states[r][i])));
                }
                for (std::size_t r = 0; r < rules.size(); r++) {
                    auto made = nil::blueprint::generate_transition_constraints(st, rules[r]);
                    if (made.empty())
                        continue;
                    std::size_t sel = b.add_gate(made);
                    if (sel >= t.selectors_amount())
                        t.resize_selectors(sel + 1);
                    t.enable_selector(sel, r);
                }
                kit::cout_catcher quiet;
                return nil::blueprint::is_satisfied(b, t);
            }
            void run(int op) {
                entry e;
                e.op = op;
                e.a = stack.back();
                e.b = operands(op) == 2 ? stack[stack.size() - 2] : big(0);
                e.r = result_of(op, e.a, e.b);
                e.row = evm.get_current_row();
                evm.assign_opcode(codes[op], machine);
                e.height = evm.get_current_row() - e.row;
                done.push_back(e);
            }
            void finish(bool test) {
                if (test)
                    evm.finalize_test();
                else
                    evm.finalize();
                nil::crypto3::zk::snark::basic_padding(tab);
            }
            bool satisfied(std::string *why = nullptr) {
                kit::cout_catcher quiet;
                bool ok = nil::blueprint::is_satisfied(bp, tab);
                if (why)
                    *why = quiet.buf.str().substr(0, 300);
                return ok;
            }
            std::string circuit_text() {
                kit::cout_catcher quiet;
                std::ostringstream o;
                bp.export_circuit(o);
                return o.str();
            }
            std::string table_text() {
                std::ostringstream o;
                tab.export_table(o);
                return o.str();
            }
        };

        // Where an opcode keeps its operands and its result, found by running it once on words that cannot be confused
        // with anything else.  A place that is not found is not used.
        struct place {
            bool known = false;
            std::size_t row = 0, col = 0;    // row counted from the first row of the opcode, first of 16 opcode columns
        };
        struct layout {
            place a, b, r;    // r of ISZERO: one cell
            place rest;       // of a division
        };
        static place find(prover &p, const entry &e, const big &v) {
            place found;
            auto &cols = p.evm.get_opcode_cols();
            for (std::size_t row = 0; row < e.height; row++)
                for (std::size_t c = 0; c + 16 <= cols.size(); c++)
                    if (word_at(p, e.row + row, c) == v) {
                        if (found.known)
                            return place();
                        found.known = true;
                        found.row = row;
                        found.col = c;
                    }
            return found;
        }
        static const value &cell(prover &p, std::size_t row, std::size_t c) {
            static const value zero = 0;
            auto &col = p.tab.witness(p.evm.get_opcode_cols()[c]);
            return row < col.size() ? col[row] : zero;
        }
        static big word_at(prover &p, std::size_t row, std::size_t c) {
            big r = 0;
            for (int i = 15; i >= 0; i--) {
                big d(cell(p, row, c + i).data);
                if (d > 0xffff)
                    return -1;
                r = (r << 16) + d;
            }
            return r;
        }
        static layout locate(int op) {
            layout l;
            const big x("0x8b70726fb8d3a24da9ff9647225a18412b8f010425938504d73ebc8801e2e016"),
                y("0x173c9a55ef10427b386d5e82c1f4907f6a2be95b714d8c033f8097eda16255b9"),
                z("0x0000000000000000000000005e82c1f4907f6a2be95b714d8c033f8097eda162");
            const big &b = op == 4 ? z : y;
            prover p(0, 0, 1);
            p.push(b);
            p.push(x);
            p.run(op);
            const entry &e = p.done[0];
            l.a = find(p, e, x);
            if (op == 0) {
                prover q(0, 0, 1);
                q.push(0);
                q.run(0);
                const entry &f = q.done[0];
                std::size_t n = 0;
                for (std::size_t row = 0; row < e.height && row < f.height; row++)
                    for (std::size_t c = 0; c < p.evm.get_opcode_cols().size(); c++)
                        if (cell(p, e.row + row, c) == value(0) && cell(q, f.row + row, c) == value(1)) {
                            l.r.row = row;
                            l.r.col = c;
                            n++;
                        }
                l.r.known = n == 1;
            } else {
                l.b = find(p, e, b);
                l.r = find(p, e, e.r);
                if (op == 4)
                    l.rest = find(p, e, x % b);
            }
            return l;
        }

        std::vector<std::unique_ptr<prover>> all;
        std::map<int, layout> known;
        const layout &where(int op) {
            auto it = known.find(op);
            return it == known.end() ? known[op] = locate(op) : it->second;
        }

        // several cells changed for a while
        struct change {
            prover &p;
            std::vector<std::tuple<std::size_t, std::size_t, value>> old;
            explicit change(prover &p) : p(p) {}
            void set(std::size_t col, std::size_t row, const value &v) {
                value o = row < p.tab.witness(col).size() ? p.tab.witness(col)[row] : value(0);
                old.emplace_back(col, row, o);
                p.tab.witness(col, row) = v;
            }
            ~change() {
                while (!old.empty()) {
                    p.tab.witness(std::get<0>(old.back()), std::get<1>(old.back())) = std::get<2>(old.back());
                    old.pop_back();
                }
            }
            void set_word(std::size_t row, std::size_t c, const big &v) {
                for (unsigned i = 0; i < 16; i++)
                    set(p.evm.get_opcode_cols()[c + i], row, value(std::uint64_t((v >> (16 * i)) & 0xffff)));
            }
            // the opcode of a row together with everything that encodes it
            void set_opcode(std::size_t row, int op) {
                auto &info = nil::blueprint::opcodes_info::instance();
                auto cols = p.evm.get_state_selector_cols();
                for (std::size_t c : cols)
                    set(c, row, row < p.tab.witness(c).size() ? p.tab.witness(c)[row] : value(0));
                p.tab.witness(cols[0], row) = value(info.get_opcode_value(codes[op]));
                selector_t s(cols, std::array<std::uint32_t, 0>({}), std::array<std::uint32_t, 0>({}), info.get_opcodes_amount());
                nil::blueprint::components::generate_assignments(s, p.tab, {var(cols[0], row, false, var::column_type::witness)},
                                                                 std::uint32_t(row));
            }
        };

        // A prover that lies about some cells of an opcode and then sets the cells that are not operands or results so
        // that as many constraints as possible hold: again and again it takes a constraint that does not hold and
        // solves it for one of the cells in it.
        void cover_up(prover &p, const entry &e, change &ch, Rng &g) {
            const layout &l = where(e.op);
            std::set<std::pair<std::size_t, std::size_t>> fixed;
            auto fix = [&](const place &x, std::size_t n) {
                for (std::size_t i = 0; x.known && i < n; i++)
                    fixed.emplace(x.row, x.col + i);
            };
            fix(l.a, 16), fix(l.b, 16), fix(l.r, e.op == 0 ? 1 : 16), fix(l.rest, 16);
            auto &cols = p.evm.get_opcode_cols();
            for (int turn = 0; turn < 120; turn++) {
                std::vector<std::pair<std::size_t, std::size_t>> open;
                const auto *bad = static_cast<const nil::crypto3::zk::snark::plonk_constraint<Field> *>(nullptr);
                std::size_t at = 0;
                for (std::size_t row = e.row; row < e.row + e.height && !bad; row++)
                    for (auto &gate : p.bp.gates()) {
                        auto &sel = p.tab.selector(gate.selector_index);
                        if (row >= sel.size() || sel[row].is_zero())
                            continue;
                        for (auto &k : gate.constraints)
                            if (!bad && !k.evaluate(row, p.tab).is_zero())
                                bad = &k, at = row;
                    }
                if (!bad)
                    return;
                value was = bad->evaluate(at, p.tab);
                for (std::size_t r = at == e.row ? 0 : at - e.row - 1; r < e.height && r <= at - e.row + 1; r++)
                    for (std::size_t i = 0; i < cols.size(); i++) {
                        if (fixed.count({r, i}))
                            continue;
                        change probe(p);
                        value old = cell(p, e.row + r, i);
                        probe.set(cols[i], e.row + r, old + value(1));
                        if (bad->evaluate(at, p.tab) != was)
                            open.emplace_back(r, i);
                    }
                if (open.empty())
                    return;
                auto k = open[g.below(open.size())];
                value old = cell(p, e.row + k.first, k.second), step;
                {
                    change probe(p);
                    probe.set(cols[k.second], e.row + k.first, old + value(1));
                    step = bad->evaluate(at, p.tab) - was;
                }
                ch.set(cols[k.second], e.row + k.first, old - was * step.inversed());
                fixed.insert(k);
            }
        }

        void execute(const Scenario &s, Ctx &c, int ops) {
            std::size_t n = std::size_t(std::max<i64>(1, std::min<i64>(3, s.get("provers", 1))));
            auto make = [&](std::size_t i) {
                u64 x = u64(s.get("shape")) >> (i * 16);
                static const std::size_t widths[] = {0, 1, 3, 64, 150, 7, 200, 0};
                return std::unique_ptr<prover>(new prover(widths[x % 8], x / 8 % 4, 1 + x / 32 % (x / 1024 % 2 ? 40 : 3)));
            };
            for (std::size_t i = 0; i < n; i++)
                all.push_back(make(i));
            std::size_t last = n;
            bool interleaved = false;
            std::set<std::size_t> seen;
            auto apply = [&](prover &p, const Step &st) {
                if (st.op == "state") {
                    p.set_state(u64(st.arg(1)), u64(st.arg(2)) % 100000);
                    return;
                }
                if (st.op == "shuffle") {
                    p.shuffle(u64(st.arg(1)) % 2);
                    return;
                }
                if (st.op == "transition") {
                    p.transition(u64(st.arg(1)), st.arg(2) % 1000000, u64(st.arg(3)) % 6 == 0);
                    return;
                }
                int op = int(u64(st.arg(1)) % u64(ops));
                // new operands, or whatever the machine has on its stack
                if (u64(st.arg(4)) % 4 != 0 || p.stack.size() < operands(op)) {
                    big a = random_word(u64(st.arg(2))), b = random_word(u64(st.arg(3)));
                    u64 tie = u64(st.arg(4)) / 4 % 8;
                    if (tie == 0)
                        b = a;
                    else if (tie == 1)
                        b = (a + 1) % two256();
                    else if (tie == 2)
                        a = b * (u64(st.arg(2)) % 1000) % two256();
                    p.push(b);
                    p.push(a);
                }
                p.run(op);
            };
            for (auto &st : s.steps) {
                std::size_t who = std::size_t(u64(st.arg(0)) % n);
                prover &p = *all[who];
                c.sim_steps++;
                apply(p, st);
                if (st.op != "op")
                    continue;
                const entry &e = p.done.back();
                interleaved |= last != who && seen.count(who);
                last = who;
                seen.insert(who);
                c.event(std::to_string(who) + " " + names[e.op] + " " + hex(e.a) + " " + hex(e.b) + " at " + std::to_string(e.row));
                c.state(mix(e.op, p.done.size() > 1 ? p.done[p.done.size() - 2].op : 9) * 4 + (e.r == 0) * 2 + (e.b == 0));
                c.require(e.height > 0, "no-rows", std::string(names[e.op]) + " took no rows");
                // the machine's stack is as it was
                auto m = p.machine;
                for (std::size_t i = p.stack.size(); i-- > 0 && p.stack.size() - i < 6;) {
                    big v = from_word(m.stack.pop());
                    c.require(v == p.stack[i], "stack-changed",
                              std::string(names[e.op]) + " left " + hex(v) + " where the stack held " + hex(p.stack[i]));
                }
                c.probe("division-by-zero", e.op == 4 && e.b == 0);
                c.probe("overflow", (e.op == 1 && e.a + e.b >= two256()) || (e.op == 3 && e.a * e.b >= two256()));
                c.probe("borrow", e.op == 2 && e.a < e.b);
            }
            c.probe("interleaved-machines", interleaved);
            bool test = s.get("finish") != 0;
            std::string circuit;
            for (std::size_t i = 0; i < n; i++) {
                prover &p = *all[i];
                if (p.done.empty())
                    continue;
                c.nontrivial |= p.done.size() > 1;
                p.finish(test);
                std::string why;
                bool ok = p.satisfied(&why);
                c.require(ok, "not-satisfied", "the trace does not satisfy the circuit: " + why);
                for (auto &e : p.done) {
                    const layout &l = where(e.op);
                    auto look = [&](const place &x, const big &v, const char *what) {
                        if (!x.known) {
                            c.probe("place-not-found");
                            return;
                        }
                        big found = e.op == 0 && *what == 'r' ? big(cell(p, e.row + x.row, x.col).data) : word_at(p, e.row + x.row, x.col);
                        c.require(found == v, "wrong-word",
                                  std::string(names[e.op]) + " of " + hex(e.a) + " and " + hex(e.b) + ": the table holds " + hex(found) +
                                      " as " + what + " instead of " + hex(v));
                    };
                    look(l.a, e.a, "first operand");
                    if (e.op)
                        look(l.b, e.b, "second operand");
                    look(l.r, e.r, "result");
                }
                // the circuit is the same whatever was executed
                std::string t = p.circuit_text();
                if (circuit.empty())
                    circuit = t;
                c.require(t == circuit, "circuit-depends-on-trace", "two provers with different traces have different circuits");
                c.event_hash(fnv(t));
            }
            // each prover alone
            for (std::size_t i = 0; i < n; i++) {
                if (all[i]->done.empty() || n < 2)
                    continue;
                auto p = make(i);
                for (auto &st : s.steps)
                    if (std::size_t(u64(st.arg(0)) % n) == i)
                        apply(*p, st);
                p->finish(test);
                c.require(p->table_text() == all[i]->table_text(), "table-depends-on-others",
                          "a prover's trace differs when other provers run in the same process");
            }
            for (auto &p : all)
                if (!p->rules.empty())
                    c.require(p->rules_kept(), "lawful-state-rejected", "a state that changes as its transitions say is rejected");
            corrupt(s, c);
        }

        void corrupt(const Scenario &s, Ctx &c) {
            Rng g(u64(s.get("corrupt")));
            u64 times = u64(s.get("faults")) % 12;
            for (u64 k = 0; k < times; k++) {
                prover &p = *all[g.below(all.size())];
                u64 kind = g.below(13), pick = g.next(), x = g.next(), y = g.next();
                if (!p.rules.empty()) {
                    std::size_t r = pick % p.states.size(), i = x % 4;
                    i64 old = p.states[r][i];
                    p.states[r][i] += 1 + i64(y % 50) * (y / 64 % 2 ? 1 : -1);
                    i64 now = p.states[r][i];
                    bool good = (r == 0 || p.allowed(*p.rule(p.rules[r - 1], i), i, p.states[r - 1][i], now)) &&
                                (r == p.rules.size() || p.allowed(*p.rule(p.rules[r], i), i, now, p.states[r + 1][i]));
                    if (!good)
                        c.fault("transition-broken");
                    bool ok = p.rules_kept();
                    p.states[r][i] = old;
                    c.require(ok == good, good ? "lawful-state-rejected" : "unlawful-state-accepted",
                              "state variable " + std::to_string(i) + " with " + std::to_string(now) + " instead of " + std::to_string(old) +
                                  " in row " + std::to_string(r));
                }
                if (p.done.empty())
                    continue;
                const entry &e = p.done[pick % p.done.size()];
                const layout &l = where(e.op);
                auto &st = p.evm.get_state();
                std::size_t row = e.row + x % e.height;
                change ch(p);
                std::string what;
                bool covered = kind == 10;
                if (kind < 5 || covered) {
                    if (covered && e.op > 2)    // the chunks of carries are not limited
                        continue;
                    big a = e.a, b = e.b, r = e.r;
                    u64 which = kind == 0 ? 2 : x % 3;
                    const place &pl = which == 0 ? l.a : which == 1 ? l.b : l.r;
                    big &v = which == 0 ? a : which == 1 ? b : r;
                    if (!pl.known)
                        continue;
                    if (e.op == 0 && which == 2) {
                        v = r == 0 ? big(1) : y % 2 ? big(0) : big(y % 1000 + 2);
                        ch.set(p.evm.get_opcode_cols()[pl.col], e.row + pl.row, value(std::uint64_t(v)));
                    } else {
                        unsigned chunk = unsigned(y / 8 % 16);
                        big old = (v >> (16 * chunk)) & 0xffff;
                        switch (y % 5) {
                            case 0:
                                v = random_word(y);
                                break;
                            case 1:
                                v += (big((std::uint64_t(old) + 1 + y / 128 % 0xffff) % 65536) - old) << (16 * chunk);
                                break;
                            case 2:
                                v = (v + (y / 128 % 2 ? big(1) : two256() - 1)) % two256();
                                break;
                            case 3: {    // the same modulo the field
                                big m = big(Field::modulus) * (1 + y / 128 % 3);
                                v = v + m < two256() ? big(v + m) : v >= m ? big(v - m) : v;
                                break;
                            }
                            default:
                                v = y / 128 % 2 ? e.a : e.b;
                        }
                        ch.set_word(e.row + pl.row, pl.col, v);
                    }
                    if (result_of(e.op, a, b) == r)
                        continue;
                    if (covered)
                        cover_up(p, e, ch, g);
                    c.fault(covered ? "lie-covered-up" : which == 2 ? "result-changed" : "operand-changed");
                    what = std::string(names[e.op]) + " of " + hex(a) + " and " + hex(b) + " giving " + hex(r);
                } else if (kind == 5) {
                    std::size_t col = st.rows_until_next_op.selector, inv = st.rows_until_next_op_inv.selector;
                    value old = p.tab.witness(col)[row], v = value(y % 24);
                    if (v == old)
                        continue;
                    ch.set(col, row, v);
                    if (y / 32 % 2)
                        ch.set(inv, row, v.is_zero() ? v : v.inversed());
                    c.fault("row-counter-changed");
                    what = std::string("a wrong row counter in ") + names[e.op];
                } else if (kind == 6) {
                    std::size_t col = st.step_selection.selector;
                    ch.set(col, row, value(1) - p.tab.witness(col)[row]);
                    c.fault("step-flag-changed");
                    what = std::string(row == e.row ? "a missing" : "an extra") + " start of an opcode in " + names[e.op];
                } else if (kind == 7) {
                    int op = int(y % 5);
                    if (op == e.op)
                        continue;
                    if (y / 8 % 2)
                        ch.set_opcode(row, op);
                    else
                        ch.set(p.evm.get_state_selector_cols()[0], row,
                               value(nil::blueprint::opcodes_info::instance().get_opcode_value(codes[op])));
                    c.fault("opcode-changed-in-a-row");
                    what = std::string("one row of ") + names[e.op] + " claiming to be " + names[op];
                } else if (kind == 8) {
                    int op = int(y % 5);
                    const layout &m = where(op);
                    if (op == e.op || op == 0 || e.op == 0 || !m.a.known || !m.b.known || !m.r.known)
                        continue;
                    std::size_t height = 0;
                    for (auto &f : p.done)
                        if (f.op == op)
                            height = f.height;
                    if (height != e.height ||
                        result_of(op, word_at(p, e.row + m.a.row, m.a.col), word_at(p, e.row + m.b.row, m.b.col)) ==
                            word_at(p, e.row + m.r.row, m.r.col))
                        continue;
                    for (std::size_t i = 0; i < e.height; i++)
                        ch.set_opcode(e.row + i, op);
                    c.fault("opcode-replaced");
                    what = std::string(names[e.op]) + " passed off as " + names[op];
                } else if (kind == 11) {    // the remainder of a division may not be the divisor
                    if (e.op != 4 || e.b == 0 || e.r == 0 || e.a % e.b != 0 || !l.r.known || !l.rest.known)
                        continue;
                    ch.set_word(e.row + l.r.row, l.r.col, e.r - 1);
                    ch.set_word(e.row + l.rest.row, l.rest.col, e.b);
                    cover_up(p, e, ch, g);
                    c.fault("remainder-too-large");
                    what = "DIV of " + hex(e.a) + " and " + hex(e.b) + " giving " + hex(e.r - 1);
                } else if (kind == 12) {    // several selectors that only add up to the right opcode
                    auto cols = p.evm.get_state_selector_cols();
                    std::size_t n = cols.size() - 2, i = y % n, j = y / 256 % n, k = (i + j) % 2 ? n : (i + j) / 2;
                    if (i == j || k == n)
                        continue;
                    value d = value(1 + y / 65536 % 1000);
                    for (std::size_t m : {i, j, k}) {
                        value old = p.tab.witness(cols[1 + m])[row];
                        ch.set(cols[1 + m], row, m == k ? old - d - d : old + d);
                    }
                    c.fault("selectors-blended");
                    what = std::string("selectors that only add up to ") + names[e.op];
                } else {
                    if (e.height < 2)
                        continue;
                    auto &v = y % 4 == 0 ? st.pc : y % 4 == 1 ? st.stack_size : y % 4 == 2 ? st.memory_size : st.curr_gas;
                    ch.set(v.selector, row, p.tab.witness(v.selector)[row] + value(1 + y / 4 % 1000));
                    c.fault("state-changed-inside-opcode");
                    what = std::string("a state variable that changes inside ") + names[e.op];
                }
                c.event("corrupted: " + what);
                c.require(!p.satisfied(), "wrong-trace-accepted", "accepted: " + what);
            }
        }
    };

    struct C13 : Harness {
        const char *property() const override { return "C13"; }
        const char *rule() const override {
            return "a run of 1..16 opcodes (ISZERO, ADD, SUB, MUL, DIV), stack and state changes and state transitions of 1..3 machines, each with its own table, "
                   "interleaved in one process, over three fields, on operands of many shapes, new or left on the stack, from any start row and "
                   "on tables of any initial width; then words, row counters, step flags, opcodes and state variables of the finished traces are "
                   "corrupted and states that break a transition are tried; non-trivial: one machine executed at least two opcodes; distinct by event log";
        }
        const char *state_measure() const override { return "hash of (opcode, previous opcode, zero result, zero operand)"; }
        std::vector<std::string> real_components() const override {
            return {"zkevm_circuit.hpp", "state.hpp", "state_selector.hpp", "stack.hpp", "zkevm_word.hpp", "zkevm_opcodes.hpp", "operations/*.hpp",
                    "circuit.hpp", "assignment.hpp", "lookup_library.hpp", "satisfiability_check.hpp"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 fields, expressions, constraint system, table base class (stand-in)",
                    "256-bit machine words (Boost.Multiprecision integers)", "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"words in the table are 16-bit chunks; the ranges of chunks, of the remainder of a division and of carries are not "
                    "constrained by the library yet, so only corrupted words made of chunks in range are judged",
                    "program counter, stack size, memory size and gas are tracked inside an opcode only; no opcode constrains how they change "
                    "from one opcode to the next"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"result-changed",   "operand-changed", "row-counter-changed",        "step-flag-changed", "opcode-changed-in-a-row",
                    "opcode-replaced", "state-changed-inside-opcode", "transition-broken", "lie-covered-up",
                    "remainder-too-large", "selectors-blended"};
        }
        std::vector<std::string> probe_names() const override {
            return {"division-by-zero", "overflow", "borrow", "interleaved-machines"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 300000 : 3000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            s.cfg["entropy"] = i64(g.next() >> 2);
            s.cfg["field"] = g.below(3);
            i64 n = g.chance(1, 2) ? 1 : g.range(2, 3);
            s.cfg["provers"] = n;
            s.cfg["shape"] = i64(g.next() >> 16);
            s.cfg["finish"] = g.below(2);
            s.cfg["faults"] = g.below(12);
            s.cfg["corrupt"] = i64(g.next() >> 2);
            u64 steps = g.range(1, g.chance(1, 4) ? 16 : 6), fixed = g.below(5);
            bool one_kind = g.chance(1, 6);
            for (u64 i = 0; i < steps; i++) {
                i64 who = g.below(n);
                if (g.chance(1, 6))
                    s.add("state", {who, i64(g.below(4)), i64(g.below(100000))});
                if (g.chance(1, 6))
                    s.add("shuffle", {who, i64(g.below(2))});
                if (g.chance(1, 3))
                    s.add("transition", {who, i64(g.below(625)), g.range(-50, 1000), i64(g.below(60))});
                s.add("op", {who, i64(one_kind ? fixed : g.below(5)), i64(g.below(1000000)), i64(g.below(1000000)), i64(g.below(32))});
            }
            return s;
        }

        void execute(const Scenario &s, Ctx &c) override {
            namespace alg = nil::crypto3::algebra;
            entropy::seed(s.get("entropy"));
            switch (u64(s.get("field")) % 3) {
                case 0:
                    trace_of<alg::curves::pallas::base_field_type>().execute(s, c, 5);
                    break;
                case 1:
                    trace_of<alg::curves::alt_bn128<254>::base_field_type>().execute(s, c, 5);
                    break;
                default:    // products of words do not fit into this field
                    trace_of<alg::fields::goldilocks64>().execute(s, c, 3);
            }
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C13 h;
    return sim::main(h, argc, argv);
}
