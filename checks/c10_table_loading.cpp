// C10: lookup table files load completely and exactly, or not at all.
// link:
#include <set>
#include <optional>
#include <sstream>

#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/fields/goldilocks64/base_field.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/pallas.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/goldilocks64.hpp>

#include <nil/blueprint/detail/lookup_table_loaders.hpp>

#include "sim.hpp"
#include "io_faults.hpp"

#include <sys/stat.h>
#include <unistd.h>

using namespace sim;

typedef nil::crypto3::algebra::curves::pallas::base_field_type pallas_field;
typedef nil::crypto3::algebra::fields::goldilocks64_base_field goldilocks_field;

namespace {
    typedef unsigned __int128 u128;
    // content of a table as plain text tokens: rows of lower-case hex numbers without leading zeros
    typedef std::vector<std::vector<std::string>> rows_t;

    std::string norm(std::string t) {
        for (char &c : t)
            c = std::tolower(static_cast<unsigned char>(c));
        std::size_t p = t.find_first_not_of('0');
        return p == std::string::npos ? "0" : t.substr(p);
    }

    // An independent reader of the file format.  The bytes either certainly hold a table, or certainly do not, or are
    // written in a way on which the format leaves the decision open (then failing is fine, and so is the literal
    // content).
    struct reading {
        enum verdict { good, bad, open } v = bad;
        rows_t rows;
        bool complete_with_newline = false;    // every announced row is there, newline included
    };

    bool is_space(char c) {
        return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f';
    }

    reading read_reference(const std::string &bytes, std::size_t cols, std::size_t max_digits) {
        reading r;
        bool open = false;
        std::size_t p = bytes.find('\n');
        std::string head = bytes.substr(0, p);
        std::size_t a = 0, b = head.size();
        while (a < b && is_space(head[a]))
            a++, open = true;
        while (b > a && is_space(head[b - 1]))
            b--, open = true;
        if (a < b && head[a] == '+')
            a++, open = true;
        if (a == b)
            return r;
        u64 n = 0;
        for (std::size_t i = a; i < b; i++) {
            if (head[i] < '0' || head[i] > '9')
                return r;
            if (n > 1000000000000ull)
                return r;
            n = n * 10 + (head[i] - '0');
        }
        if (b - a > 1 && head[a] == '0')
            open = true;
        bool terminated = p != std::string::npos;
        std::size_t pos = terminated ? p + 1 : bytes.size();
        for (u64 i = 0; i < n; i++) {
            if (pos >= bytes.size())
                return r;
            std::size_t e = bytes.find('\n', pos);
            terminated = e != std::string::npos;
            std::string line = bytes.substr(pos, terminated ? e - pos : std::string::npos);
            pos = terminated ? e + 1 : bytes.size();
            std::vector<std::string> toks;
            std::string cur;
            for (char c : line + " ") {
                if (is_space(c)) {
                    if (c == '\t' || c == '\v' || c == '\f' || c == '\r')
                        open = true;
                    if (!cur.empty())
                        toks.push_back(cur);
                    cur.clear();
                } else if (std::strchr("0123456789abcdefABCDEF", c) && c) {
                    cur += c;
                } else {
                    return r;
                }
            }
            if (toks.size() != cols)
                return r;
            for (auto &t : toks) {
                if (norm(t).size() > max_digits)
                    return r;
                if (t.size() >= max_digits)
                    open = true;
                t = norm(t);
            }
            r.rows.push_back(toks);
        }
        r.complete_with_newline = terminated;
        for (std::size_t i = pos; i < bytes.size(); i++) {
            if (bytes[i] == '\n' || is_space(bytes[i]))
                open = true;
            else {
                r.rows.clear();
                return r;    // more data than announced
            }
        }
        r.v = open ? reading::open : reading::good;
        return r;
    }

    struct table_text {
        std::string bytes;
        u64 rows;
    };

    table_text make_table(u64 tseed, u64 rows, std::size_t cols, int style, unsigned value_bits) {
        Rng g(tseed * 7919 + 13);
        std::string s = std::to_string(rows) + "\n";
        for (u64 i = 0; i < rows; i++) {
            for (std::size_t j = 0; j < cols; j++) {
                unsigned bits = unsigned(g.below(value_bits + 1));
                std::string t;
                for (unsigned d = 0; d < (bits + 3) / 4; d++)
                    t += "0123456789abcdef"[g.below(16)];
                t = norm(t.empty() ? "0" : t);
                if (style & 1)
                    for (char &c : t)
                        c = std::toupper(static_cast<unsigned char>(c));
                if ((style & 2) && t.size() < 4)
                    t = "0" + t;
                if (j)
                    s += (style & 4) ? "  " : " ";
                s += t;
            }
            if (i + 1 < rows || !(style & 8))
                s += "\n";
        }
        return {s, rows};
    }

    const char corrupt_bytes[] = {'0', '1', '9', 'a', 'f', 'F', 'g', 'z', ' ', '\n', '\t', '\0', '\x7f',
                                  '-', '+', ',', '.', 'x', '\r', '\x80', '\xff', '5', '7', 'e'};

    // applies one storage fault to the bytes; returns its name
    std::string mutate(std::string &b, i64 kind, u64 pos, u64 val) {
        auto line_starts = [&]() {
            std::vector<std::size_t> v {0};
            for (std::size_t i = 0; i + 1 < b.size(); i++)
                if (b[i] == '\n')
                    v.push_back(i + 1);
            return v;
        };
        if (b.empty())
            return "";
        switch (kind) {
            case 1:
                b.resize(pos % b.size());
                return "truncated-file";
            case 2: {
                char &c = b[pos % b.size()];
                char n = corrupt_bytes[val % sizeof corrupt_bytes];
                if (c == n)
                    n = n == 'b' ? 'c' : 'b';
                c = n;
                return "corrupted-byte";
            }
            case 3:
                b.erase(pos % b.size(), 1 + val % 3);
                return "lost-bytes";
            case 4:
                b.insert(pos % (b.size() + 1), 1, corrupt_bytes[val % sizeof corrupt_bytes]);
                return "inserted-byte";
            case 5: {
                std::size_t e = b.find('\n');
                if (e == std::string::npos)
                    return "";
                u64 n = std::strtoull(b.c_str(), nullptr, 10);
                std::string h;
                switch (val % 12) {
                    case 0: h = ""; break;
                    case 1: h = "garbage"; break;
                    case 2: h = "18446744073709551615"; break;
                    case 3: h = "99999999999999999999999"; break;
                    case 4: h = "-1"; break;
                    case 5: h = std::to_string(n + 1); break;
                    case 6: h = n ? std::to_string(n - 1) : "7"; break;
                    case 7: h = std::to_string(n) + "x"; break;
                    case 8: h = "1099511627776"; break;
                    case 9: h = "4000000000"; break;
                    case 10: h = std::to_string(n) + " 3"; break;
                    default: h = "0x" + std::to_string(n); break;
                }
                b = h + b.substr(e);
                return "corrupted-header";
            }
            case 6: {
                auto v = line_starts();
                std::size_t i = pos % v.size();
                std::size_t e = i + 1 < v.size() ? v[i + 1] : b.size();
                b.erase(v[i], e - v[i]);
                return "lost-line";
            }
            case 7: {
                auto v = line_starts();
                std::size_t i = pos % v.size();
                std::size_t e = i + 1 < v.size() ? v[i + 1] : b.size();
                std::string l = b.substr(v[i], e - v[i]);
                b.insert(v[i], l);
                return "duplicated-line";
            }
            case 8:
                b.clear();
                return "empty-file";
            case 9: {    // the tail of the file was never written: zero bytes of the right length
                std::size_t p = pos % b.size();
                for (std::size_t i = p; i < b.size(); i++)
                    b[i] = '\0';
                return "zeroed-tail";
            }
            case 10: {    // a lost block in the middle
                std::size_t p = pos % b.size();
                b.erase(p, 16 + val % 64);
                return "lost-block";
            }
            default:
                return "";
        }
    }

    // stream whose bytes arrive in pieces and may stop with an I/O error
    struct faulty_buf : std::streambuf {
        const std::string &d;
        std::size_t p = 0, chunk;
        i64 fail_at;
        std::vector<char> buf;
        bool failed = false;
        faulty_buf(const std::string &data, std::size_t chunk, i64 fail_at) : d(data), chunk(chunk ? chunk : 1), fail_at(fail_at) {}
        int_type underflow() override {
            if (fail_at >= 0 && p >= std::size_t(fail_at)) {
                failed = true;
                throw std::runtime_error("simulated read error");
            }
            std::size_t n = std::min(chunk, d.size() - p);
            if (fail_at >= 0)
                n = std::min(n, std::size_t(fail_at) - p);
            if (!n)
                return traits_type::eof();
            buf.assign(d.begin() + p, d.begin() + p + n);
            p += n;
            setg(buf.data(), buf.data(), buf.data() + n);
            return traits_type::to_int_type(*gptr());
        }
    };

    struct C10 : Harness {
        const char *property() const override { return "C10"; }
        const char *rule() const override {
            return "a run is a sequence of 1..6 loads into one reused result buffer (stream loads, candidate file lists, the "
                   "embedded tables) with storage faults (mutated bytes) and I/O faults (failed, short, interrupted reads, "
                   "unopenable candidates) drawn per run; non-trivial: at least one fault struck or one table with rows was "
                   "loaded; distinct by event log (bytes loaded, faults, outcome, content)";
        }
        const char *state_measure() const override {
            return "hash of (fault kind, byte region it struck: header/first/middle/last row, reference verdict, observed outcome, "
                   "number of remaining candidates)";
        }
        std::vector<std::string> real_components() const override {
            return {"detail/lookup_table_loaders.hpp", "detail/lookup_table_precomputes.hpp", "libstdc++ file streams",
                    "Boost.Spirit"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field types (stand-in)", "disk: read(2)/fopen seam and mutated file bytes", "input streams"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"truncated-file", "corrupted-byte", "lost-bytes", "inserted-byte", "corrupted-header", "lost-line",
                    "duplicated-line", "empty-file", "zeroed-tail", "lost-block", "stream-read-error", "short-stream-reads",
                    "read-EIO", "read-EINTR", "short-read", "open-failed", "missing-candidate", "directory-candidate"};
        }
        std::vector<std::string> probe_names() const override {
            return {"fell-through-to-later-candidate", "last-row-without-newline", "stale-result-longer-than-table",
                    "all-candidates-failed", "embedded-table-loaded", "error-inside-last-row"};
        }
        std::vector<std::string> assumptions() const override {
            return {"an exception from the loader counts as a reported failure, except where a later intact candidate exists",
                    "a final row without newline is accepted as a complete row, so damage inside that row which leaves "
                    "well-formed numbers is not detectable by the format"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 4000000 : 80000; }

        Scenario generate(Rng &g, u64 run) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            s.cfg["field"] = g.below(2);
            s.cfg["cols"] = g.range(1, 4);
            bool faults = run % 8 != 0;    // one run in eight is fault-free
            unsigned io_w = g.below(3), st_w = g.below(4);
            if (run % 997 == 5) {
                s.add("bin", {i64(g.below(2))});
            }
            u64 n = g.range(1, 4);
            for (u64 k = 0; k < n; k++) {
                bool files = g.chance(1, 2);
                u64 cands = files ? g.range(1, 4) : 1;
                for (u64 c = 0; c < cands; c++) {
                    u64 rows = g.chance(1, 12) ? 0 : g.chance(1, 6) ? g.range(300, 900) : g.range(1, 12);
                    i64 kind = faults && g.chance(st_w, 4) ? g.range(1, 10) : 0;
                    // places: header, near the end, anywhere
                    u64 where = g.below(3);
                    u64 pos = where == 0 ? g.below(4) : where == 1 ? u64(1000000 - 1 - g.below(12)) : g.below(1000000);
                    i64 io = faults && g.chance(io_w, 3) ? g.range(1, 6) : 0;
                    std::vector<i64> a = {i64(g.below(1000)), i64(rows), i64(g.below(16)), kind, i64(where), i64(pos),
                                          i64(g.below(1000)), io, i64(g.below(1000)), i64(g.below(3) ? 4096 : g.range(1, 40))};
                    s.add(files ? "cand" : "stream", a);
                }
                if (files)
                    s.add("load");
            }
            return s;
        }

        template<typename F>
        static rows_t tokens(const std::vector<std::vector<typename F::value_type>> &res, std::size_t cols, std::string &why) {
            rows_t r;
            if (res.size() != cols) {
                why = "result has " + std::to_string(res.size()) + " columns, expected " + std::to_string(cols);
                return r;
            }
            for (std::size_t j = 0; j < cols; j++)
                if (res[j].size() != res[0].size()) {
                    why = "columns of different length";
                    return r;
                }
            for (std::size_t i = 0; i < res[0].size(); i++) {
                std::vector<std::string> row;
                for (std::size_t j = 0; j < cols; j++) {
                    std::ostringstream os;
                    os << std::hex << typename F::integral_type(res[j][i].data);
                    row.push_back(norm(os.str()));
                }
                r.push_back(row);
            }
            return r;
        }

        static u64 place(const std::string &b, i64 where, u64 pos) {
            if (b.empty())
                return 0;
            if (where == 0)
                return pos;
            if (where == 1)
                return b.size() - 1 - (1000000 - 1 - pos) % b.size();
            return pos % b.size();
        }

        struct cand {
            std::string path;
            reading ref;
            bool missing = false, dir = false;
            bool must_fail = false, may_fail = false;
        };

        template<typename F>
        void run(const Scenario &s, Ctx &c) {
            using namespace nil::blueprint::components::detail;
            typedef std::vector<std::vector<typename F::value_type>> result_t;
            const std::size_t cols = std::max<i64>(1, s.get("cols"));
            const std::size_t max_digits = (F::modulus_bits + 3) / 4;
            const unsigned value_bits = F::modulus_bits - 8;    // whatever is drawn stays below the modulus
            result_t result;
            std::vector<cand> pend;
            scratch_dir tmp;
            int file_no = 0;

            auto compare = [&](const rows_t &want, const char *what) {
                std::string why;
                rows_t got = tokens<F>(result, cols, why);
                c.require(why.empty(), "wrong-table", std::string(what) + ": " + why);
                c.require(got.size() == want.size(), "wrong-table",
                          std::string(what) + ": " + std::to_string(got.size()) + " rows delivered, " +
                              std::to_string(want.size()) + " announced and present");
                for (std::size_t i = 0; i < got.size(); i++)
                    c.require(got[i] == want[i], "wrong-table",
                              std::string(what) + ": row " + std::to_string(i) + " differs from the file");
            };

            for (const Step &st : s.steps) {
                c.sim_steps++;
                if (st.op == "bin") {
                    int base = st.arg(0) ? 7 : 4;
                    c.event("embedded table base " + std::to_string(base));
                    bool ok = load_lookup_table_from_bin<F>(base == 7 ? "8_split_7" : "8_split_4", result);
                    c.require(ok, "embedded-table", "the embedded table was refused");
                    c.probe("embedded-table-loaded");
                    std::string why;
                    c.require(result.size() == 2 && result[0].size() == result[1].size(), "embedded-table", "shape");
                    std::size_t want = base == 7 ? 43904 : 65536;
                    c.require(result[0].size() == want, "embedded-table",
                              "embedded table has " + std::to_string(result[0].size()) + " rows");
                    std::set<u64> seen;
                    for (std::size_t i = 0; i < want; i++) {
                        u64 pre = u64(typename F::integral_type(result[0][i].data)), img = u64(typename F::integral_type(result[1][i].data));
                        u64 t = img, expect = 0;
                        for (int k = 0; k < 8; k++, t /= base)
                            expect |= ((t % base) & 1) << k;
                        c.require(t == 0 && expect == pre, "embedded-table",
                                  "row " + std::to_string(i) + " of the embedded table is not a digit/parity pair");
                        c.require(seen.insert(img).second, "embedded-table", "repeated row in the embedded table");
                    }
                    bool unk = load_lookup_table_from_bin<F>("no_such_table", result);
                    c.require(!unk, "embedded-table", "an unknown embedded table was delivered");
                    c.nontrivial = true;
                } else if (st.op == "cand" || st.op == "stream") {
                    bool stream = st.op == "stream";
                    table_text t = make_table(st.arg(0), std::min<i64>(2000, std::max<i64>(0, st.arg(1))), cols, st.arg(2), value_bits);
                    std::string bytes = t.bytes;
                    u64 pos = place(bytes, st.arg(4), st.arg(5));
                    std::string fk = mutate(bytes, st.arg(3), pos, st.arg(6));
                    if (!fk.empty()) {
                        c.fault(fk);
                        c.nontrivial = true;
                    }
                    if (t.rows)
                        c.nontrivial = true;
                    cand cd;
                    cd.ref = read_reference(bytes, cols, max_digits);
                    if (cd.ref.v != reading::bad && !cd.ref.complete_with_newline && !cd.ref.rows.empty())
                        c.probe("last-row-without-newline");
                    u64 region = bytes.empty() ? 9 : 4 * pos / bytes.size();
                    i64 io = st.arg(7);
                    c.event(st.op + " bytes " + std::to_string(fnv(bytes)) + " io " + std::to_string(io) + " ref " +
                            std::to_string(int(cd.ref.v)));
                    c.state(fnv(fk + std::to_string(region) + "/" + std::to_string(int(cd.ref.v)) + "/" + std::to_string(io) +
                                (stream ? "s" : "f") + std::to_string(pend.size())));
                    if (stream) {
                        i64 fail_at = -1;
                        if (io == 1 || io == 2) {
                            // bias: inside the last row
                            fail_at = io == 1 ? i64(st.arg(8) % (bytes.size() + 1))
                                              : i64(bytes.size()) - i64(st.arg(8) % std::min<u64>(10, bytes.size() + 1));
                        }
                        u64 chunk = io ? 1 + st.arg(9) % 64 : 8192;
                        if (io >= 3)
                            c.fault("short-stream-reads");
                        faulty_buf fb(bytes, chunk, fail_at);
                        std::istream is(&fb);
                        bool ok = false, threw = false;
                        u64 before = result.empty() ? 0 : result[0].size();
                        try {
                            ok = parse_lookup_table<F>(is, cols, result);
                        } catch (const std::exception &) {
                            threw = true;
                        }
                        reading ref = cd.ref;
                        bool may_fail = ref.v == reading::open, must_fail = ref.v == reading::bad;
                        if (fb.failed) {
                            c.fault("stream-read-error");
                            reading part = read_reference(bytes.substr(0, fail_at), cols, max_digits);
                            // success is only acceptable when every announced row, newline included, arrived before the error
                            if (part.v != reading::bad && part.complete_with_newline) {
                                ref = part;
                                may_fail = true;
                                must_fail = false;
                            } else {
                                must_fail = true;
                                c.probe("error-inside-last-row", part.v != reading::bad);
                            }
                        }
                        c.event(ok ? "loaded" : threw ? "threw" : "refused");
                        if (ok) {
                            if (before > ref.rows.size())
                                c.probe("stale-result-longer-than-table");
                            c.require(!must_fail, "accepted-damaged",
                                      "a damaged or incompletely read table was reported as loaded (fault " + fk + ")");
                            compare(ref.rows, "stream");
                        } else {
                            c.require(may_fail || must_fail, "refused-intact", "an intact table was refused");
                        }
                    } else {
                        cd.path = tmp.path + "/c" + std::to_string(100 + file_no++);
                        if (io == 5) {
                            cd.missing = true;
                            c.fault("missing-candidate");
                            c.nontrivial = true;
                        } else if (io == 6 && st.arg(8) % 2) {
                            cd.dir = true;
                            mkdir(cd.path.c_str(), 0700);
                            c.fault("directory-candidate");
                        } else {
                            write_file(cd.path, bytes);
                            if (io == 1) {
                                io_faults::on_read(cd.path, io_faults::eio_at, st.arg(8) % (bytes.size() + 1), st.arg(9) % 2 ? st.arg(9) : 4096);
                                reading part = read_reference(bytes.substr(0, st.arg(8) % (bytes.size() + 1)), cols, max_digits);
                                if (part.v != reading::bad && part.complete_with_newline) {
                                    cd.ref = part;
                                    cd.may_fail = true;
                                } else
                                    cd.must_fail = true;
                                c.nontrivial = true;
                            } else if (io == 2) {
                                io_faults::on_read(cd.path, io_faults::eintr, 1 + st.arg(8) % 3, 1 + st.arg(9));
                            } else if (io == 3) {
                                io_faults::on_read(cd.path, io_faults::shorten, 0, 1 + st.arg(9) % 64);
                            } else if (io == 4) {
                                io_faults::on_open(cd.path);
                                cd.must_fail = true;
                                c.nontrivial = true;
                            }
                        }
                        pend.push_back(cd);
                    }
                } else if (st.op == "load") {
                    std::set<std::string> paths;
                    for (auto &cd : pend)
                        paths.insert(cd.path);
                    bool ok = false, threw = false;
                    u64 before = result.empty() ? 0 : result[0].size();
                    try {
                        ok = load_lookup_table<F>(paths, cols, result);
                    } catch (const std::exception &e) {
                        threw = true;
                    }
                    io_faults::counts k = io_faults::take();
                    c.fault("read-EIO", k.eio);
                    c.fault("read-EINTR", k.eintr);
                    c.fault("short-read", k.shortened);
                    c.fault("open-failed", k.open_failed);
                    c.event(std::string("load ") + std::to_string(paths.size()) + (ok ? " loaded" : threw ? " threw" : " refused"));
                    // allowed results: walk the candidates in order
                    std::vector<const rows_t *> allowed;
                    bool may_fail = true;
                    std::size_t idx = 0, first = 0;
                    for (auto &cd : pend) {
                        idx++;
                        if (cd.missing || cd.dir || cd.must_fail || cd.ref.v == reading::bad)
                            continue;
                        allowed.push_back(&cd.ref.rows);
                        first = first ? first : idx;
                        if (cd.ref.v == reading::good && !cd.may_fail) {
                            may_fail = false;
                            break;
                        }
                    }
                    if (ok) {
                        c.require(!allowed.empty(), "accepted-damaged", "success reported although no candidate holds a complete table");
                        std::string why;
                        rows_t got = tokens<F>(result, cols, why);
                        c.require(why.empty(), "wrong-table", "files: " + why);
                        bool match = false;
                        for (auto *r : allowed)
                            match = match || *r == got;
                        c.require(match, "wrong-table", "the delivered table is not the content of the first readable candidate");
                        if (first > 1)
                            c.probe("fell-through-to-later-candidate");
                        if (before > got.size())
                            c.probe("stale-result-longer-than-table");
                    } else {
                        c.require(may_fail, "refused-intact",
                                  threw ? "an exception from a bad candidate kept an intact candidate from being used"
                                        : "an intact candidate was not used");
                        c.probe("all-candidates-failed");
                    }
                    pend.clear();
                }
                for (auto &col : result)
                    c.event_hash(col.size());
            }
        }

        void execute(const Scenario &s, Ctx &c) override {
            if (s.get("field"))
                run<goldilocks_field>(s, c);
            else
                run<pallas_field>(s, c);
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C10 h;
    return sim::main(h, argc, argv);
}
