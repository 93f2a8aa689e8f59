// C11: exports go whole to the given stream and failures are visible.
#include "build_script.hpp"

using namespace sim;
using namespace kit;

namespace {
    // A sink that accepts a limited number of bytes.  mode 0: unlimited; 1: refuses (returns less than asked); 2: throws;
    // 3: collects everything and fails only when flushed; 4: hands over to the next stage in pieces of varying size.
    struct sink : std::streambuf {
        std::string got;
        int mode;
        u64 limit, chunk;
        u64 refused = 0;
        sink(int m, u64 l, u64 ch) : mode(m), limit(l), chunk(std::max<u64>(1, ch)) {
            if (mode == 4) {
                buf.resize(chunk);
                setp(buf.data(), buf.data() + buf.size());
            }
        }
        std::vector<char> buf;
        bool drain() {
            u64 n = u64(pptr() - pbase());
            got.append(pbase(), n);
            setp(buf.data(), buf.data() + buf.size());
            return true;
        }
        bool room(u64 n) const { return (mode != 1 && mode != 2) || got.size() + n <= limit; }
        void refuse() {
            refused++;
            if (mode == 2)
                throw std::runtime_error("device error");
        }
        int_type overflow(int_type ch) override {
            if (mode == 4)
                drain();
            if (traits_type::eq_int_type(ch, traits_type::eof()))
                return traits_type::not_eof(ch);
            if (!room(1)) {
                refuse();
                return traits_type::eof();
            }
            if (mode == 4) {
                *pptr() = traits_type::to_char_type(ch);
                pbump(1);
            } else {
                got.push_back(traits_type::to_char_type(ch));
            }
            return ch;
        }
        std::streamsize xsputn(const char *s, std::streamsize n) override {
            if (mode == 4)
                return std::streambuf::xsputn(s, n);
            std::streamsize i = 0;
            for (; i < n && room(1); i++)
                got.push_back(s[i]);
            if (i < n)
                refuse();
            return i;
        }
        int sync() override {
            if (mode == 4)
                drain();
            if (mode == 3) {
                refused++;
                return -1;
            }
            return 0;
        }
    };

    typedef std::vector<std::pair<std::size_t, std::size_t>> ranges;

    struct C11 : Harness {
        const char *property() const override { return "C11"; }
        const char *rule() const override {
            return "a run builds a circuit and a table with 2..40 operations of 1..3 provers and exports the shared circuit, the shared "
                   "table (whole and in parts) and every view between and after the operations to sinks that stop accepting bytes at a "
                   "chosen position, throw, fail on flush or take bytes in pieces; non-trivial: an export was cut short; distinct by event log";
        }
        const char *state_measure() const override { return "hash of exported bytes"; }
        std::vector<std::string> real_components() const override {
            return {"export_circuit and export_table of circuit.hpp, circuit_proxy.hpp, assignment.hpp, assignment_proxy.hpp", "std::ostream"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions, table base class (stand-in)", "output device (simulated)", "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"expressions and variables are printed by crypto3 (stand-in); the check asks that each is printed, in order"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"write-refused", "write-throws", "flush-fails", "pieces", "throwing-stream"};
        }
        std::vector<std::string> probe_names() const override {
            return {"circuit-export", "circuit-view-export", "table-export", "table-view-export", "partial-table-export", "wide-export",
                    "shared-rows-beyond-others", "no-selector-columns"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 1000000 : 20000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            s.cfg["entropy"] = i64(g.next() >> 2);
            i64 n = g.range(1, 3);
            s.cfg["provers"] = n;
            for (const char *k : {"w", "p", "c"})
                s.cfg[k] = g.range(1, 4);
            s.cfg["s"] = g.chance(1, 10) ? 0 : g.range(1, 4);
            u64 base = g.below(400), fam = g.range(1, 3), steps = g.range(2, g.chance(1, 4) ? 40 : 14);
            auto w = op_weights(g);
            i64 rows = g.pick(std::vector<i64> {3, 8, 20});
            i64 actor = 0;
            for (u64 i = 0; i < steps; i++) {
                if (g.chance(2, 3))
                    actor = g.chance(1, 6) ? n : g.below(n);
                s.steps.push_back(random_op(g, actor, base, fam, rows, w));
                if (g.chance(1, 6) || i + 1 == steps)
                    for (u64 m = g.range(1, 3); m > 0; m--)
                        // object, wide, sink mode, where the sink stops (per mille of the length), piece size, throwing stream
                        s.add("export", {i64(g.below(5)), i64(g.below(n)), i64(g.below(2)), i64(g.weighted({1, 4, 2, 1, 2})),
                                         i64(g.below(1001)), g.range(1, 40), i64(g.chance(1, 5)), i64(g.next() >> 40)});
            }
            return s;
        }

        static std::vector<std::string> tokens(const std::string &l) {
            std::istringstream in(l);
            std::vector<std::string> r;
            std::string t;
            while (in >> t)
                r.push_back(t);
            return r;
        }
        static std::string strip(const std::string &hex) {
            std::size_t i = 0;
            while (i + 1 < hex.size() && hex[i] == '0')
                i++;
            return hex.substr(i);
        }

        // rows of a table export as groups of cells
        void check_rows(Ctx &c, const std::string &what, const std::string &text_, std::size_t head, bool numbered,
                        const std::vector<std::vector<std::vector<value>>> &want, bool wide) {
            std::istringstream in(text_);
            std::string l;
            for (std::size_t i = 0; i < head; i++)
                c.require(bool(std::getline(in, l)), "export-incomplete", what + " has no complete heading");
            for (std::size_t i = 0; i < want.size(); i++) {
                c.require(bool(std::getline(in, l)), "export-incomplete",
                          what + " shows only " + std::to_string(i) + " of " + std::to_string(want.size()) + " rows");
                auto ts = tokens(l);
                if (numbered) {
                    c.require(!ts.empty() && ts[0].back() == ':', "export-wrong", what + " does not number its rows");
                    ts.erase(ts.begin());
                }
                std::size_t at = 0;
                for (std::size_t gr = 0; gr < want[i].size(); gr++) {
                    for (std::size_t j = 0; j < want[i][gr].size(); j++, at++) {
                        c.require(at < ts.size() && ts[at] != "|", "export-incomplete",
                                  what + " lacks column " + std::to_string(j) + " of group " + std::to_string(gr) + " in row " +
                                      std::to_string(i));
                        c.require(strip(ts[at]) == strip(text(want[i][gr][j])), "export-wrong",
                                  what + " shows " + ts[at] + " instead of " + text(want[i][gr][j]) + " in row " + std::to_string(i) +
                                      ", group " + std::to_string(gr) + ", column " + std::to_string(j));
                        bool selectors = gr + 1 == want[i].size();
                        c.require(!wide || selectors || ts[at].size() == (field::modulus_bits + 3) / 4, "export-wrong",
                                  what + " is not of fixed width");
                    }
                    if (gr + 1 < want[i].size()) {
                        c.require(at < ts.size() && ts[at] == "|", "export-wrong", what + " has extra cells in row " + std::to_string(i));
                        at++;
                    }
                }
                c.require(at == ts.size(), "export-wrong", what + " has extra cells in row " + std::to_string(i));
            }
            c.require(!std::getline(in, l), "export-wrong", what + " continues after the last row");
        }

        static value at(const column &x, std::size_t row) { return row < x.size() ? x[row] : value::zero(); }

        // the pieces must appear in this order
        void check_pieces(Ctx &c, const std::string &what, const std::string &text_, const std::vector<std::string> &pieces) {
            std::size_t at = 0;
            for (auto &p : pieces) {
                std::size_t f = text_.find(p, at);
                c.require(f != std::string::npos, "export-incomplete", what + " does not show '" + p.substr(0, 100) + "' in its place");
                at = f + p.size();
            }
        }
        template<typename T>
        static std::string shown(const T &x) {
            std::ostringstream o;
            o << x;
            return o.str();
        }
        static ranges some_ranges(Rng &g, std::size_t size) {
            ranges r;
            if (!size)
                return r;
            for (u64 n = g.below(3); n > 0; n--) {
                std::size_t lo = g.below(size), hi = lo + g.below(size - lo);
                r.push_back({lo, hi});
            }
            return r;
        }

        void execute(const Scenario &s, Ctx &c) override {
            entropy::seed(s.get("entropy"));
            auto size = [&](const char *k, i64 lo) { return std::size_t(std::max<i64>(lo, std::min<i64>(6, s.get(k, 1)))); };
            std::size_t n = size("provers", 1);
            world w(n, size("w", 1), size("p", 1), size("c", 1), size("s", 0));
            bool cut = false;
            for (auto &st : s.steps) {
                c.sim_steps++;
                if (st.op != "export") {
                    bool selector_op = st.op.compare(0, 6, "enable") == 0 || (st.op == "write" && u64(st.arg(1)) % 4 == 3) ||
                                       (st.op == "fill" && u64(st.arg(1)) % 2);
                    if (selector_op && w.tab->selectors_amount() == 0)
                        continue;
                    c.event(st.op + " " + w.apply(st));
                    continue;
                }
                u64 kind = u64(st.arg(0)) % 5;
                std::size_t v = u64(st.arg(1)) % n;
                bool wide = u64(st.arg(2)) % 2;
                int mode = int(u64(st.arg(3)) % 5);
                Rng g(u64(st.arg(7)));
                const circuit_t &b = *w.bp;
                const table_t &t = *w.tab;
                ranges rw = some_ranges(g, t.witnesses_amount()), rp = some_ranges(g, t.public_inputs_amount()),
                       rc = some_ranges(g, t.constants_amount()), rs = some_ranges(g, t.selectors_amount()),
                       rr = some_ranges(g, t.max_size() + 2);
                bool part_by_view = g.chance(1, 2);
                auto run = [&](std::ostream &os) {
                    switch (kind) {
                        case 0:
                            b.export_circuit(os);
                            break;
                        case 1:
                            static_cast<const circuit_view &>(w.cv[v]).export_circuit(os);
                            break;
                        case 2:
                            t.export_table(os, wide);
                            break;
                        case 3:
                            static_cast<const table_view &>(w.tv[v]).export_table(os, wide);
                            break;
                        default:
                            (part_by_view ? static_cast<const table_t &>(w.tv[v]) : t).export_table(os, rw, rp, rc, rs, rr, wide);
                    }
                };
                static const char *names[] = {"circuit-export", "circuit-view-export", "table-export", "table-view-export",
                                              "partial-table-export"};
                std::string what = names[kind];
                c.probe(what);
                c.probe("wide-export", wide && kind > 1);
                std::string before = w.dump(), full;
                {
                    std::ostringstream os;
                    os << std::setprecision(9);
                    auto flags = os.flags();
                    cout_catcher console;
                    run(os);
                    full = os.str();
                    c.require(console.buf.str().empty(), "written-elsewhere", what + " wrote '" + console.buf.str().substr(0, 60) +
                                                                                  "' to standard output");
                    c.require(os.good(), "stream-failed", what + " left a healthy stream in a failed state");
                    c.require(os.flags() == flags, "stream-format-changed", what + " left other number formatting on the stream");
                }
                c.require(w.dump() == before, "export-changed-object",
                          what + " changed the exported object: " + first_difference(before, w.dump()));
                // content
                if (kind < 2) {
                    std::vector<std::string> pieces;
                    auto gates = b.gates();
                    auto copies = b.copy_constraints();
                    auto lookups = b.lookup_gates();
                    std::set<std::uint32_t> ug, uc, ul, ut;
                    for (std::size_t i = 0; i < gates.size(); i++)
                        ug.insert(i);
                    for (std::size_t i = 0; i < copies.size(); i++)
                        uc.insert(i);
                    if (kind == 1) {
                        ug = w.cv[v].get_used_gates();
                        uc = w.cv[v].get_used_copy_constraints();
                        ul = w.cv[v].get_used_lookup_gates();
                        ut = w.cv[v].get_used_lookup_tables();
                    }
                    pieces.push_back("gates_size: " + std::to_string(ug.size()));
                    pieces.push_back("copy_constraints_size: " + std::to_string(uc.size()));
                    pieces.push_back("lookup_gates_size: " + std::to_string(kind ? ul.size() : lookups.size()));
                    for (auto i : ug) {
                        pieces.push_back("selector: " + std::to_string(gates[i].selector_index));
                        for (auto &e : gates[i].constraints)
                            pieces.push_back(shown(e) + "\n");
                    }
                    for (auto i : uc)
                        pieces.push_back(shown(copies[i].first) + " " + shown(copies[i].second));
                    for (auto i : ul) {
                        pieces.push_back("selector: " + std::to_string(lookups[i].tag_index));
                        for (auto &l : lookups[i].constraints) {
                            pieces.push_back("table index: " + std::to_string(l.table_id));
                            for (auto &e : l.lookup_input)
                                pieces.push_back(shown(e) + "\n");
                        }
                    }
                    for (auto i : ut)
                        pieces.push_back(std::to_string(i) + ": " + b.get_reserved_indices_right().at(i + 1));
                    check_pieces(c, what, full, pieces);
                    if (kind == 1) {
                        // parts of the export that no longer go astray to the console
                        check_pieces(c, what, full, {"lookup gates:", "lookup tables:"});
                        c.require(full.find("not found") == std::string::npos, "export-wrong", what + " misses a table that is there");
                    }
                } else {
                    bool view = kind == 3;
                    std::size_t rows = t.max_size();
                    if (view && t.shared_column_size(0) > rows) {
                        rows = t.shared_column_size(0);
                        c.probe("shared-rows-beyond-others");
                    }
                    c.probe("no-selector-columns", t.selectors_amount() == 0);
                    check_pieces(c, what, full,
                                 {"witnesses_size: " + std::to_string(t.witnesses_amount()),
                                  "public_inputs_size: " + std::to_string(t.public_inputs_amount()),
                                  "constants_size: " + std::to_string(t.constants_amount()),
                                  "selectors_size: " + std::to_string(t.selectors_amount()), "max_size: " + std::to_string(rows)});
                    if (kind != 4) {
                        rw = rp = rc = rs = rr = ranges();
                        if (t.witnesses_amount())
                            rw = {{0, t.witnesses_amount() - 1}};
                        if (t.public_inputs_amount())
                            rp = {{0, t.public_inputs_amount() - 1}};
                        if (t.constants_amount())
                            rc = {{0, t.constants_amount() - 1}};
                        if (t.selectors_amount())
                            rs = {{0, t.selectors_amount() - 1}};
                        if (rows)
                            rr = {{0, rows - 1}};
                    }
                    std::vector<std::vector<std::vector<value>>> want;
                    for (auto &r : rr)
                        for (std::size_t i = r.first; i <= r.second; i++) {
                            std::vector<std::vector<value>> row;
                            bool used = !view || w.tv[v].get_used_rows().count(i);
                            row.emplace_back();
                            for (auto &x : rw)
                                for (std::size_t j = x.first; j <= x.second; j++)
                                    row.back().push_back(used ? at(t.witness(j), i) : value::zero());
                            if (view)
                                row.push_back({at(t.shared(0), i)});
                            row.emplace_back();
                            for (auto &x : rp)
                                for (std::size_t j = x.first; j <= x.second; j++)
                                    row.back().push_back(at(t.public_input(j), i));
                            row.emplace_back();
                            for (auto &x : rc)
                                for (std::size_t j = x.first; j <= x.second; j++)
                                    row.back().push_back(at(t.constant(j), i));
                            row.emplace_back();
                            for (auto &x : rs)
                                for (std::size_t j = x.first; j <= x.second; j++)
                                    row.back().push_back(at(t.selector(j), i));
                            want.push_back(row);
                        }
                    check_rows(c, what, full, view ? 5 : 1, view, want, wide);
                    if (view) {
                        std::string rows_used = "internal used rows: ", sel_used = "internal used selector rows: ",
                                    lc = "lookup constants: ", ls = "lookup selectors: ";
                        for (auto i : w.tv[v].get_used_rows())
                            rows_used += std::to_string(i) + " ";
                        for (auto i : w.tv[v].get_used_selector_rows())
                            sel_used += std::to_string(i) + " ";
                        for (auto i : t.get_lookup_constant_cols())
                            lc += std::to_string(i) + " ";
                        for (auto i : t.get_lookup_selector_cols())
                            ls += std::to_string(i) + " ";
                        check_pieces(c, what, full, {rows_used + "\n", sel_used + "\n", lc + "\n", ls + "\n"});
                    }
                }
                // the same export to a failing device
                u64 limit = full.size() * (u64(st.arg(4)) % 1001) / 1000;
                bool throwing = u64(st.arg(6)) % 2;
                sink out(mode, limit, u64(st.arg(5)));
                std::ostream os(&out);
                if (throwing)
                    os.exceptions(std::ios::badbit | std::ios::failbit);
                bool thrown = false;
                {
                    cout_catcher console;
                    try {
                        run(os);
                    } catch (const std::ios_base::failure &) {
                        thrown = true;
                    } catch (const std::runtime_error &) {    // the device's own exception, passed on by a throwing stream
                        thrown = true;
                    }
                    c.require(console.buf.str().empty(), "written-elsewhere", what + " wrote to standard output");
                }
                c.fault("write-refused", mode == 1 && out.refused);
                c.fault("write-throws", mode == 2 && out.refused);
                c.fault("flush-fails", mode == 3 && out.refused);
                c.fault("pieces", mode == 4);
                c.fault("throwing-stream", thrown);
                cut = cut || out.refused;
                c.require(full.compare(0, out.got.size(), out.got) == 0 && out.got.size() <= full.size(), "not-a-prefix",
                          what + ": what reached a failing device is not a beginning of the export");
                if (mode == 3 || mode == 4 || mode == 0)
                    c.require(out.got == full, "bytes-lost", what + ": a device taking all bytes received " +
                                                                 std::to_string(out.got.size()) + " of " + std::to_string(full.size()));
                if (mode == 1 || mode == 2)
                    c.require(out.refused || out.got == full, "bytes-lost", what + " stopped before the device refused anything");
                c.require(!out.refused || os.bad() || os.fail(), "failure-hidden",
                          what + ": the stream looks healthy although the device failed");
                c.require(!thrown || out.refused, "stream-failed", what + " failed on a healthy device");
                c.require(!throwing || !out.refused || thrown, "failure-hidden", what + " swallowed the stream's exception");
                c.require(w.dump() == before, "export-changed-object",
                          what + " to a failing device changed the exported object: " + first_difference(before, w.dump()));
                {
                    std::ostringstream again;
                    cout_catcher console;
                    run(again);
                    c.require(again.str() == full, "export-not-repeatable", what + " after a failure differs");
                }
                c.state(fnv(full));
                c.event(what + " " + std::to_string(fnv(full)) + " mode " + std::to_string(mode) + " got " + std::to_string(out.got.size()));
            }
            c.nontrivial = cut;
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C11 h;
    return sim::main(h, argc, argv);
}
