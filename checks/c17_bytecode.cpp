// C17: the zkEVM bytecode table holds exactly the contracts' code, whoever reads it and whatever a prover changes.
#include "plonk_kit.hpp"

#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>
#include <nil/blueprint/zkevm/bytecode.hpp>

using namespace sim;
using namespace kit;

namespace {
    namespace bc = nil::blueprint::components;
    typedef bc::zkevm_bytecode<arith, field> code_t;
    typedef bc::bytecode_table_tester<arith, field> tester_t;
    typedef nil::blueprint::circuit_proxy<arith> circuit_view;
    typedef nil::blueprint::assignment_proxy<arith> table_view;

    enum : unsigned { TAG, INDEX, VALUE, IS_OPCODE, HASH_HI, HASH_LO, PUSH_SIZE, VALUE_RLC, LENGTH_LEFT, CHALLENGE, COLUMNS };
    const char *const names[] = {"tag", "index", "value", "is_opcode", "hash_hi", "hash_lo", "push_size", "value_rlc", "length_left", "challenge"};

    bool known_opcode(unsigned b) {
        return b <= 0x0b || (b >= 0x10 && b <= 0x1d) || b == 0x20 || (b >= 0x30 && b <= 0x4a) || (b >= 0x50 && b <= 0xa4) ||
               (b >= 0xf0 && b <= 0xf5) || b == 0xfa || b >= 0xfd;
    }
    unsigned push_of(unsigned b) { return b > 0x5f && b < 0x80 ? b - 0x5f : 0; }

    typedef std::array<value, COLUMNS> row_t;
    typedef std::vector<row_t> rows_t;

    struct contract {
        std::vector<value> bytes;
        value length, hi, lo;
    };

    // what the rows have to be for these contracts
    rows_t expected(const std::vector<contract> &all, const value &challenge, std::size_t size) {
        rows_t r;
        for (auto &c : all) {
            row_t x;
            x.fill(value::zero());
            x[VALUE] = x[LENGTH_LEFT] = c.length;
            x[HASH_HI] = c.hi;
            x[HASH_LO] = c.lo;
            x[CHALLENGE] = challenge;
            r.push_back(x);
            unsigned push = 0;
            for (std::size_t i = 0; i < c.bytes.size(); i++) {
                x[TAG] = value::one();
                x[INDEX] = value(i);
                x[VALUE] = c.bytes[i];
                x[LENGTH_LEFT] = x[LENGTH_LEFT] - value::one();
                x[VALUE_RLC] = x[VALUE_RLC] * challenge + c.bytes[i];
                x[IS_OPCODE] = value(push ? 0 : 1);
                push = push ? push - 1 : integral(c.bytes[i].data) < 256 ? push_of(unsigned(integral(c.bytes[i].data))) : 0;
                x[PUSH_SIZE] = value(push);
                r.push_back(x);
            }
        }
        row_t none;
        none.fill(value::zero());
        r.resize(std::max(r.size(), size), none);
        return r;
    }

    // Is this a table of contracts?  The first row is taken to be a header, as nothing in the component says so yet.
    bool well_formed(const rows_t &t, std::string &why) {
        value zero = value::zero(), one = value::one();
        row_t none;
        none.fill(zero);
        auto bad = [&](std::size_t r, const char *what) {
            why = "row " + std::to_string(r) + ": " + what;
            return false;
        };
        for (std::size_t i = 0; i < t.size(); i++) {
            const row_t &x = t[i], &next = i + 1 < t.size() ? t[i + 1] : none, &prev = i ? t[i - 1] : none;
            if (x[TAG] != zero && x[TAG] != one)
                return bad(i, "tag");
            if (x[IS_OPCODE] != zero && x[IS_OPCODE] != one)
                return bad(i, "is_opcode");
            if (x[TAG] == zero) {
                if (x[INDEX] != zero)
                    return bad(i, "index of a header");
                if (x[IS_OPCODE] != zero)
                    return bad(i, "a header is an opcode");
                if (x[VALUE_RLC] != zero)
                    return bad(i, "code before the first byte");
                if (x[LENGTH_LEFT] != x[VALUE])
                    return bad(i, "length in the header");
                if (next[TAG] == zero && x[VALUE] != zero)
                    return bad(i, "length of a contract without bytes");
                if (next[TAG] == one && x[PUSH_SIZE] != zero)
                    return bad(i, "operand bytes before the first opcode");
                if (next[TAG] == one && prev[TAG] == one && x[CHALLENGE] != prev[CHALLENGE])
                    return bad(i, "challenge of the next contract");
                continue;
            }
            if (!i)
                return true;
            if (integral(x[VALUE].data) > 255)
                return bad(i, "not a byte");
            if (x[INDEX] != (prev[TAG] == one ? prev[INDEX] + one : zero))
                return bad(i, "index");
            if (x[LENGTH_LEFT] != prev[LENGTH_LEFT] - one)
                return bad(i, "length left");
            if (next[TAG] == zero && x[LENGTH_LEFT] != zero)
                return bad(i, "length left after the last byte");
            if (x[HASH_HI] != prev[HASH_HI] || x[HASH_LO] != prev[HASH_LO])
                return bad(i, "hash");
            if (x[CHALLENGE] != prev[CHALLENGE])
                return bad(i, "challenge");
            if (x[VALUE_RLC] != prev[VALUE_RLC] * x[CHALLENGE] + x[VALUE])
                return bad(i, "code so far");
            bool opcode = prev[TAG] == zero || prev[PUSH_SIZE] == zero;
            if (x[IS_OPCODE] != value(opcode ? 1 : 0))
                return bad(i, opcode ? "an opcode taken for an operand" : "an operand taken for an opcode");
            unsigned b = unsigned(integral(x[VALUE].data));
            if (opcode && !known_opcode(b))
                return bad(i, "unknown opcode");
            if (x[PUSH_SIZE] != (opcode ? value(push_of(b)) : prev[PUSH_SIZE] - one))
                return bad(i, "push size");
        }
        return true;
    }

    struct C17 : Harness {
        const char *property() const override { return "C17"; }
        const char *rule() const override {
            return "a run builds 1..3 bytecode tables of circuits of their own, interleaved, for 0..6 contracts of 0..70 bytes of many shapes "
                   "(operands cut off at the end, long runs of PUSH, unknown opcodes, no byte at all, wrong lengths, bytes out of range), on any "
                   "columns and rows, circuit pass or assignment first, through a view or not; readers look up true and false rows of the table "
                   "from other columns; then the prover changes 1..4 cells, or a value together with everything computed from it; non-trivial: "
                   "two contracts and a refused change; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (party, operation, arguments) sequence so far"; }
        std::vector<std::string> real_components() const override {
            return {"zkevm/bytecode.hpp", "lookup_library.hpp", "circuit.hpp", "assignment.hpp", "circuit_proxy.hpp", "assignment_proxy.hpp",
                    "satisfiability_check.hpp"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions and plonk table base class (stand-in)", "packing of lookup tables"};
        }
        std::vector<std::string> assumptions() const override {
            return {"the rows directly above and below the component are empty in its columns", "the contracts fit into the table",
                    "the component's copy constraints are still to be written: nothing ties the table to the caller's cells"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"cell-changed", "byte-changed-consistently", "opcode-boundary-moved", "length-changed-consistently", "contract-split",
                    "contracts-joined", "hash-changed-from-row", "challenge-changed-from-row", "contract-dropped", "false-row-read", "wrong-length-given",
                    "unknown-opcode-given", "byte-out-of-range-given", "switch-between-parties", "several-cells-changed"};
        }
        std::vector<std::string> probe_names() const override {
            return {"honest-accepted", "honest-refused", "change-refused", "change-still-well-formed", "operands-cut-off", "empty-contract", "full-table",
                    "reader-refused", "tester", "through-views", "assignment-first"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 400000 : 40000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["parties"] = i64(g.chance(1, 2) ? 1 : g.range(2, 3));
            s.cfg["layout"] = i64(g.below(1000000));
            s.cfg["memfill"] = i64(g.below(256));
            i64 n = s.get("parties");
            // contracts, then what happens to them
            for (i64 p = 0; p < n; p++)
                for (u64 k = g.weighted({1, 4, 4, 2, 2, 1, 1}); k > 0; k--)
                    s.add("contract", {p, i64(g.weighted({24, 1, 1, 1})), i64(g.below(100000))});
            for (u64 k = g.range(3, 14); k > 0; k--) {
                i64 p = g.below(u64(n));
                if (g.chance(1, 4))
                    s.add("reader", {p, i64(g.below(1000)), i64(g.below(13))});
                else
                    s.add("fault", {p, i64(g.below(10)), i64(g.below(1000)), i64(g.below(100000))});
            }
            return s;
        }

        static contract make_contract(u64 flaw, u64 seed) {
            Rng g(seed * 7919 + 13);
            contract c;
            std::size_t n = g.chance(1, 8) ? 0 : g.chance(1, 3) ? g.range(1, 3) : g.range(1, 70);
            unsigned style = unsigned(g.below(4));
            unsigned push = 0;
            for (std::size_t i = 0; i < n; i++) {
                unsigned b;
                if (push) {
                    b = g.chance(1, 3) ? unsigned(0x5f + g.below(34)) : unsigned(g.below(256));
                    push--;
                } else {
                    do
                        b = style == 1 || g.chance(1, 3) ? unsigned(0x5f + g.below(style == 3 ? 4 : 34)) : unsigned(g.below(256));
                    while (!known_opcode(b));
                    push = push_of(b);
                }
                c.bytes.push_back(value(b));
            }
            c.length = value(n);
            if (flaw == 1)
                c.length = g.chance(1, 2) ? value(n + 1) : value(n) - value(1);
            if (flaw == 2 && n) {
                // an unknown opcode where an opcode is due
                unsigned left = 0;
                std::vector<std::size_t> at;
                for (std::size_t i = 0; i < n; i++) {
                    if (!left)
                        at.push_back(i);
                    left = left ? left - 1 : push_of(unsigned(integral(c.bytes[i].data)));
                }
                unsigned b;
                do
                    b = unsigned(g.below(256));
                while (known_opcode(b));
                c.bytes[at[g.below(at.size())]] = value(b);
            }
            if (flaw == 3 && n)
                c.bytes[g.below(n)] = g.chance(1, 2) ? value(256 + g.below(3)) : -value(1 + g.below(300));
            c.hi = make_value(g.next() >> 20);
            c.lo = make_value(g.next() >> 20);
            return c;
        }

        struct party {
            std::shared_ptr<circuit_t> bp;
            std::shared_ptr<table_t> tab;
            std::unique_ptr<circuit_view> cv;
            std::unique_ptr<table_view> tv;
            std::vector<contract> contracts;
            std::vector<std::uint32_t> cols, reader_cols;
            std::size_t start = 0, size = 0, W = 0, reader_row = 0, first = 0;
            i64 reader_selector = -1;
            bool tester = false;
            value challenge;
            rows_t honest;
            circuit_t &C() { return cv ? *cv : *bp; }
            table_t &T() { return tv ? static_cast<table_t &>(*tv) : *tab; }
            void set(std::size_t r, unsigned c, const value &x) { tab->witness(cols[first + c], std::uint32_t(start + r)) = x; }
            value get(std::size_t r, unsigned c) {
                auto &col = static_cast<const table_t &>(*tab).witness(cols[first + c]);
                return start + r < col.size() ? col[start + r] : value::zero();
            }
            rows_t rows(unsigned columns = COLUMNS) {
                rows_t t(size);
                for (std::size_t r = 0; r < size; r++)
                    for (unsigned c = 0; c < COLUMNS; c++)
                        t[r][c] = c < columns ? get(r, c) : value::zero();
                return t;
            }
            void put(const rows_t &t, unsigned columns = COLUMNS) {
                for (std::size_t r = 0; r < size; r++)
                    for (unsigned c = 0; c < columns; c++)
                        set(r, c, t[r][c]);
            }
            bool satisfied() {
                cout_catcher quiet;
                return nil::blueprint::is_satisfied(*bp, *tab);
            }
        };

        void execute(const Scenario &s, Ctx &c) override {
            std::size_t n = 1 + u64(s.get("parties") - 1) % 3;
            Rng lay(u64(s.get("layout")) * 5 + 1);
            std::vector<party> all(n);
            for (auto &st : s.steps)
                if (st.op == "contract") {
                    auto &p = all[u64(st.arg(0)) % n];
                    if (p.contracts.size() < 8) {
                        u64 flaw = u64(st.arg(1)) % 4;
                        p.contracts.push_back(make_contract(flaw, u64(st.arg(2))));
                        const char *kinds[] = {"", "wrong-length-given", "unknown-opcode-given", "byte-out-of-range-given"};
                        if (flaw && (flaw == 1 || !p.contracts.back().bytes.empty()))
                            c.fault(kinds[flaw]);
                        c.probe("empty-contract", p.contracts.back().bytes.empty());
                    }
                }
            struct pass {
                std::size_t who;
                bool circuit;
            };
            std::vector<pass> passes;
            for (std::size_t i = 0; i < n; i++) {
                auto &p = all[i];
                p.tester = lay.chance(1, 6);
                std::size_t need = p.tester ? 12 : 11, used = 0;
                for (auto &k : p.contracts)
                    used += 1 + k.bytes.size();
                p.size = std::max<std::size_t>(used, 1) + (lay.chance(1, 3) ? 0 : lay.below(20));
                if (p.tester)
                    p.size = std::max<std::size_t>(p.size, 16);
                c.probe("full-table", p.size == used);
                p.W = need + 6 + lay.below(5);
                std::vector<std::uint32_t> order;
                for (std::size_t k = 0; k < p.W; k++)
                    order.push_back(std::uint32_t(k));
                if (lay.chance(2, 3))
                    for (std::size_t k = p.W; k > 1; k--)
                        std::swap(order[k - 1], order[lay.below(k)]);
                p.cols.assign(order.begin(), order.begin() + need);
                p.reader_cols.assign(order.begin() + need, order.begin() + need + 6);
                p.start = lay.chance(1, 3) ? 0 : lay.below(40);
                p.first = p.tester ? 6 : 0;
                p.reader_row = lay.below(10);
                p.challenge = make_value(lay.next() >> 20);
                p.bp = std::make_shared<circuit_t>();
                p.tab = std::make_shared<table_t>(p.W, 1, 1, 12);
                if (lay.chance(1, 3)) {
                    p.cv.reset(new circuit_view(p.bp, 0));
                    p.tv.reset(new table_view(p.tab, 0));
                    c.probe("through-views");
                }
                bool assign_first = lay.chance(1, 2);
                c.probe("assignment-first", assign_first);
                passes.push_back({i, !assign_first});
                passes.push_back({i, assign_first});
                // tables in any order
                std::vector<std::string> tables = {"byte_range_table/full", "zkevm_opcodes/full", "zkevm_bytecode"};
                for (std::size_t k = 3; k > 1; k--)
                    std::swap(tables[k - 1], tables[lay.below(k)]);
                for (auto &t : tables)
                    t == "zkevm_bytecode" ? p.C().reserve_dynamic_table(t) : p.C().reserve_table(t);
            }
            // parties take turns, the two passes of each keep their order
            for (std::size_t i = 0; i < passes.size(); i++) {
                std::size_t j = i + lay.below(passes.size() - i);
                while (j > i && std::any_of(passes.begin() + i, passes.begin() + j, [&](const pass &x) { return x.who == passes[j].who; }))
                    j--;
                std::rotate(passes.begin() + i, passes.begin() + j, passes.begin() + j + 1);
                if (i && passes[i].who != passes[i - 1].who)
                    c.fault("switch-between-parties");
            }
            std::vector<char> seen(n, 0);
            std::vector<std::vector<std::vector<var>>> code(n);
            std::vector<std::vector<std::pair<var, var>>> hashes(n);
            std::vector<var> challenges(n);
            for (auto &ps : passes) {
                auto &p = all[ps.who];
                auto pub = [&](std::size_t r) { return var(0, std::int64_t(r), false, var::column_type::public_input); };
                if (!seen[ps.who]) {
                    seen[ps.who] = 1;
                    std::size_t at = 0;
                    auto put = [&](const value &x) {
                        p.tab->public_input(0, std::uint32_t(at)) = x;
                        return pub(at++);
                    };
                    for (auto &k : p.contracts) {
                        code[ps.who].push_back({put(k.length)});
                        for (auto &b : k.bytes)
                            code[ps.who].back().push_back(put(b));
                        var hi = put(k.hi), lo = put(k.lo);
                        hashes[ps.who].push_back({hi, lo});
                    }
                    challenges[ps.who] = put(p.challenge);
                }
                c.event(std::to_string(ps.who) + (ps.circuit ? " circuit" : " assignment") + " start " + std::to_string(p.start) + " size " +
                        std::to_string(p.size) + (p.tester ? " tester" : ""));
                if (p.tester) {
                    tester_t component(p.cols, std::vector<std::uint32_t> {}, std::vector<std::uint32_t> {}, p.size);
                    typename tester_t::input_type in(code[ps.who], hashes[ps.who]);
                    c.require(component.rows_amount == p.size + 2, "wrong-rows", "the tester has " + std::to_string(component.rows_amount) + " rows");
                    if (ps.circuit)
                        bc::generate_circuit(component, p.C(), p.T(), in, p.start);
                    else {
                        // the tester reads rows of the table that no contract may have reached
                        for (auto col : p.cols)
                            p.tab->witness(col, std::uint32_t(p.start + p.size + 2)) = value::zero();
                        bc::generate_assignments(component, p.T(), in, std::uint32_t(p.start));
                    }
                    c.probe("tester");
                } else {
                    code_t component(p.cols, std::vector<std::uint32_t> {}, std::vector<std::uint32_t> {}, p.size);
                    typename code_t::input_type in(code[ps.who], hashes[ps.who], challenges[ps.who]);
                    c.require(component.rows_amount == p.size, "wrong-rows", "the component has " + std::to_string(component.rows_amount) + " rows");
                    if (ps.circuit)
                        bc::generate_circuit(component, p.C(), p.T(), in, p.start);
                    else
                        bc::generate_assignments(component, p.T(), in, std::uint32_t(p.start));
                }
            }
            u64 inter = 1, refused = 0, several = 0;
            for (auto &p : all) {
                // packing: one entry per reserved table, in order of the indexes
                std::map<std::size_t, std::string> ids;
                for (auto &x : p.bp->get_reserved_indices())
                    ids[x.second] = x.first;
                for (auto &x : ids)
                    if (x.second == "zkevm_bytecode")
                        p.bp->add_lookup_table(lookup_table(p.bp->get_dynamic_table_definition(x.second)->lookup_table));
                    else {
                        lookup_table t(1, 11);
                        t.append_option({constraint(var(0, 0, true, var::column_type::constant))});
                        p.bp->add_lookup_table(std::move(t));
                    }
                if (p.tester)
                    p.start++;
                for (std::size_t k = 0; k < p.W; k++)
                    p.tab->witness(std::uint32_t(k), std::uint32_t(p.start + p.size + 12)) = value::zero();
                p.tab->constant(0, std::uint32_t(p.start + p.size + 12)) = value::zero();
                // the table itself
                p.honest = expected(p.contracts, p.challenge, p.size);
                unsigned columns = p.tester ? 6 : COLUMNS;
                for (std::size_t r = 0; r < p.size; r++)
                    for (unsigned k = 0; k < columns; k++) {
                        value got = p.get(r, k);
                        bool flawed_push = k == PUSH_SIZE || k == IS_OPCODE;
                        if (got == p.honest[r][k])
                            continue;
                        // a byte out of range has no defined operand length
                        bool odd = false;
                        for (auto &x : p.contracts)
                            for (auto &b : x.bytes)
                                odd = odd || integral(b.data) > 255;
                        c.require(odd && flawed_push, "wrong-row",
                                  std::string(names[k]) + " in row " + std::to_string(r) + " is " + text(got) + " instead of " + text(p.honest[r][k]));
                    }
                if (p.tester) {
                    p.honest = p.rows(6);
                    bool ok = p.satisfied();
                    c.require(ok, "not-satisfied", "the tester's lookups into its own table fail");
                } else {
                    std::string why;
                    bool good = well_formed(p.rows(), why), ok = p.satisfied();
                    c.require(ok == good, good ? "not-satisfied" : "flawed-code-accepted",
                              good ? "a table of well-formed contracts is refused" : "accepted although not well formed: " + why);
                    c.probe(good ? "honest-accepted" : "honest-refused");
                    p.honest = p.rows();
                    for (auto &k : p.contracts) {
                        unsigned left = 0;
                        for (auto &b : k.bytes)
                            left = left ? left - 1 : integral(b.data) < 256 ? push_of(unsigned(integral(b.data))) : 0;
                        c.probe("operands-cut-off", left > 0);
                    }
                }
                several += p.contracts.size() > 1;
            }

            for (auto &st : s.steps) {
                c.sim_steps++;
                std::string line = st.op;
                for (auto v : st.a)
                    line += " " + std::to_string(v);
                inter = fnv(line, inter);
                c.state(inter);
                if (st.op == "contract")
                    continue;
                auto &p = all[u64(st.arg(0)) % n];
                std::string why;
                bool base = p.tester || well_formed(p.honest, why);
                if (!base)
                    continue;
                c.event(line);
                if (st.op == "reader") {
                    // one lookup, in a row and columns of its own
                    if (p.reader_selector < 0) {
                        lookup_constraint l;
                        l.table_id = p.bp->get_reserved_indices().at("zkevm_bytecode");
                        for (unsigned k = 0; k < 6; k++)
                            l.lookup_input.push_back(constraint(var(p.reader_cols[k], 0, true)));
                        p.reader_selector = i64(p.C().add_lookup_gate({l}));
                    }
                    std::size_t r = u64(st.arg(1)) % p.size, row = p.reader_row++;
                    std::array<value, 6> x;
                    for (unsigned k = 0; k < 6; k++)
                        x[k] = p.honest[r][k];
                    u64 lie = u64(st.arg(2)) % 13;
                    if (lie < 6) {
                        x[lie] = x[lie] + (lie == IS_OPCODE || lie == TAG ? (x[lie].is_zero() ? value::one() : -value::one()) : value(1 + u64(st.arg(1)) % 3));
                        c.fault("false-row-read");
                    }
                    bool there = false;
                    for (auto &h : p.honest)
                        there = there || std::equal(x.begin(), x.end(), h.begin());
                    for (unsigned k = 0; k < 6; k++)
                        p.T().witness(p.reader_cols[k], std::uint32_t(row)) = x[k];
                    p.T().enable_selector(std::size_t(p.reader_selector), row);
                    bool ok = p.satisfied();
                    c.require(ok == there, there ? "reader-refused" : "false-row-accepted",
                              there ? "a reader's true row is refused" : "a row that is not in the table is accepted");
                    if (!there) {
                        c.probe("reader-refused");
                        refused++;
                        // withdraw the lie
                        for (unsigned k = 0; k < 6; k++)
                            p.T().witness(p.reader_cols[k], std::uint32_t(row)) = p.honest[r][k];
                    }
                    continue;
                }
                if (p.tester) {
                    // the three rows that the tester reads: above, below and aside
                    u64 where = u64(st.arg(1)) % 3;
                    unsigned k = unsigned(u64(st.arg(2)) % 6);
                    auto cell = [&](unsigned q) -> value & {
                        return where == 0 ? p.tab->witness(p.cols[6 + q], std::uint32_t(p.start - 1)) :
                               where == 1 ? p.tab->witness(p.cols[6 + q], std::uint32_t(p.start + p.size)) :
                                            p.tab->witness(p.cols[q], std::uint32_t(p.start));
                    };
                    std::array<value, 6> x;
                    value old = cell(k);
                    cell(k) = old + value(1 + u64(st.arg(3)) % 5);
                    for (unsigned q = 0; q < 6; q++)
                        x[q] = cell(q);
                    bool there = false;
                    for (auto &h : p.honest)
                        there = there || std::equal(x.begin(), x.end(), h.begin());
                    bool ok = p.satisfied();
                    c.fault("cell-changed");
                    c.require(ok == there, there ? "not-satisfied" : "false-row-accepted",
                              std::string("the tester's row ") + (where == 0 ? "above" : where == 1 ? "below" : "aside"));
                    cell(k) = old;
                    continue;
                }
                rows_t t = p.honest;
                Rng g(u64(st.arg(3)) * 3 + 7);
                std::size_t r = u64(st.arg(2)) % p.size, used = 0;
                for (auto &k : p.contracts)
                    used += 1 + k.bytes.size();
                if (used)
                    r = g.chance(1, 8) ? r : r % used;
                if (g.chance(1, 6) && r + 1 < p.size && t[r][TAG].is_zero())
                    r++;
                auto end_of = [&](std::size_t from) {
                    while (from < p.size && t[from][TAG] == value::one())
                        from++;
                    return from;
                };
                auto rlc_from = [&](std::size_t from) {
                    for (std::size_t i = from; i < p.size && t[i][TAG] == value::one(); i++)
                        t[i][VALUE_RLC] = t[i - 1][VALUE_RLC] * t[i][CHALLENGE] + t[i][VALUE];
                };
                auto operands_from = [&](std::size_t from) {
                    // opcodes and operand lengths of the rest of the contract, as a machine would read it
                    value left = t[from - 1][TAG].is_zero() ? value::zero() : t[from - 1][PUSH_SIZE];
                    for (std::size_t i = from; i < p.size && t[i][TAG] == value::one(); i++) {
                        t[i][IS_OPCODE] = value(left.is_zero() ? 1 : 0);
                        left = left.is_zero() ? value(push_of(unsigned(integral(t[i][VALUE].data)) & 255)) : left - value::one();
                        t[i][PUSH_SIZE] = left;
                    }
                };
                auto lengths_to = [&](std::size_t last) {
                    // count back from the last byte to the header
                    value left = value::zero();
                    std::size_t i = last;
                    for (; i > 0 && t[i][TAG] == value::one(); i--, left = left + value::one())
                        t[i][LENGTH_LEFT] = left;
                    t[i][LENGTH_LEFT] = t[i][VALUE] = left;
                };
                bool byte = t[r][TAG] == value::one();
                std::string what;
                switch (u64(st.arg(1)) % 10) {
                    case 0:
                    case 1: {
                        unsigned k = unsigned(g.below(COLUMNS));
                        value was = t[r][k];
                        t[r][k] = g.chance(1, 3) ? (was.is_zero() ? value::one() : value::zero()) : was + value(1 + g.below(4));
                        what = names[k];
                        c.fault("cell-changed");
                        break;
                    }
                    case 2: {
                        for (u64 many = g.range(2, 4); many > 0; many--) {
                            std::size_t i = std::min<std::size_t>(p.size - 1, r + g.below(3));
                            unsigned k = unsigned(g.below(COLUMNS));
                            t[i][k] = g.chance(1, 2) ? t[r][k] : t[i][k] + value(1 + g.below(2));
                            what += std::string(" ") + names[k];
                        }
                        c.fault("several-cells-changed");
                        break;
                    }
                    case 3:
                        if (!byte)
                            continue;
                        t[r][VALUE] = g.chance(1, 4) ? value(256 + g.below(4)) : value(g.below(256));
                        rlc_from(r);
                        if (g.chance(3, 4))
                            operands_from(r);
                        what = "byte";
                        c.fault("byte-changed-consistently");
                        break;
                    case 4: {
                        // an operand read as an opcode or the other way round, the rest to match
                        if (!byte)
                            continue;
                        bool opcode = t[r][IS_OPCODE] == value::one();
                        if (opcode) {
                            value left = t[r - 1][PUSH_SIZE];
                            if (t[r - 1][TAG].is_zero() && g.chance(1, 2))
                                left = t[r - 1][PUSH_SIZE] = value(1 + g.below(6));
                            for (std::size_t i = r; i < end_of(r); i++) {
                                if (left.is_zero() && i > r && g.chance(3, 4)) {
                                    operands_from(i);
                                    break;
                                }
                                left = left - value::one();
                                t[i][IS_OPCODE] = value::zero();
                                t[i][PUSH_SIZE] = left;
                            }
                        } else {
                            t[r][IS_OPCODE] = value::one();
                            t[r][PUSH_SIZE] = value(push_of(unsigned(integral(t[r][VALUE].data))));
                            if (r + 1 < p.size && t[r + 1][TAG] == value::one())
                                operands_from(r + 1);
                            if (g.chance(1, 2))
                                t[r - 1][PUSH_SIZE] = value::zero();
                        }
                        what = "opcode boundary";
                        c.fault("opcode-boundary-moved");
                        break;
                    }
                    case 5: {
                        // the length of a contract, in all rows
                        std::size_t h = r;
                        while (h > 0 && t[h][TAG] == value::one())
                            h--;
                        value d = g.chance(1, 2) ? value(1 + g.below(3)) : -value(1 + g.below(3));
                        t[h][VALUE] = t[h][VALUE] + d;
                        t[h][LENGTH_LEFT] = t[h][LENGTH_LEFT] + d;
                        for (std::size_t i = h + 1; i < p.size && t[i][TAG] == value::one(); i++)
                            t[i][LENGTH_LEFT] = t[i][LENGTH_LEFT] + d;
                        what = "length";
                        c.fault("length-changed-consistently");
                        break;
                    }
                    case 6: {
                        // a byte becomes the header of a new contract
                        if (!byte)
                            continue;
                        std::size_t last = end_of(r) - 1;
                        for (unsigned k = 0; k < COLUMNS; k++)
                            if (k != HASH_HI && k != HASH_LO && k != CHALLENGE)
                                t[r][k] = value::zero();
                        for (std::size_t i = r + 1; i <= last; i++)
                            t[i][INDEX] = value(i - r - 1);
                        if (last > r) {
                            rlc_from(r + 1);
                            operands_from(r + 1);
                            lengths_to(last);
                        }
                        if (t[r - 1][TAG] == value::one() && g.chance(3, 4))
                            lengths_to(r - 1);
                        if (t[r - 1][TAG].is_zero() && g.chance(1, 2))
                            t[r - 1][LENGTH_LEFT] = t[r - 1][VALUE] = value::zero();
                        what = "split";
                        c.fault("contract-split");
                        break;
                    }
                    case 7: {
                        // a header becomes a byte of the contract before it
                        if (byte || !r)
                            continue;
                        bool with_hash = g.chance(1, 2);
                        t[r][TAG] = value::one();
                        t[r][VALUE] = value(g.below(256));
                        std::size_t last = end_of(r) - 1;
                        for (std::size_t i = r; i <= last; i++) {
                            t[i][INDEX] = t[i - 1][TAG].is_zero() ? value::zero() : t[i - 1][INDEX] + value::one();
                            if (with_hash) {
                                t[i][HASH_HI] = t[i - 1][HASH_HI];
                                t[i][HASH_LO] = t[i - 1][HASH_LO];
                                t[i][CHALLENGE] = t[i - 1][CHALLENGE];
                            }
                        }
                        rlc_from(r);
                        operands_from(r);
                        lengths_to(last);
                        what = "join";
                        c.fault("contracts-joined");
                        break;
                    }
                    case 8: {
                        bool challenge = g.chance(1, 2);
                        std::size_t last = g.chance(1, 2) ? p.size : end_of(r + 1 < p.size && !byte ? r + 1 : r);
                        for (std::size_t i = r; i < std::max(last, r + 1); i++) {
                            unsigned k = challenge ? unsigned(CHALLENGE) : unsigned(HASH_HI) + unsigned(g.below(1 + (i == r)));
                            t[i][k] = t[i][k] + value::one();
                        }
                        if (challenge && byte)
                            rlc_from(r);
                        if (challenge && !byte && r + 1 < p.size && t[r + 1][TAG] == value::one())
                            rlc_from(r + 1);
                        what = challenge ? "challenge" : "hash";
                        c.fault(challenge ? "challenge-changed-from-row" : "hash-changed-from-row");
                        break;
                    }
                    default: {
                        // the bytes of a contract disappear, its header stays
                        std::size_t h = r;
                        while (h > 0 && t[h][TAG] == value::one())
                            h--;
                        std::size_t last = end_of(h + 1);
                        for (std::size_t i = h + 1; i < last; i++)
                            t[i].fill(value::zero());
                        if (g.chance(1, 2))
                            t[h][VALUE] = t[h][LENGTH_LEFT] = value::zero();
                        what = "dropped";
                        c.fault("contract-dropped");
                    }
                }
                if (t == p.honest || t[0][TAG] != value::zero())
                    continue;
                bool good = well_formed(t, why);
                p.put(t);
                if (!good) {
                    bool ok = p.satisfied();
                    c.require(!ok, "lie-accepted", "changed (" + what + ") from row " + std::to_string(r) + " and still accepted: " + why);
                    c.probe("change-refused");
                    refused++;
                } else
                    c.probe("change-still-well-formed");
                p.put(p.honest);
                c.require(p.satisfied(), "not-satisfied", "the honest table is refused after the change was taken back");
            }
            c.nontrivial = several && refused;
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C17 h;
    return sim::main(h, argc, argv);
}
