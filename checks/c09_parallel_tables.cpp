// C09: parallel SHA table generation is independent of thread scheduling.
// modules: thread_sim
// build: -fsanitize=thread
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/pallas.hpp>

#include <thread>
#include <mutex>
#include <nil/blueprint/components/hashes/sha2/plonk/detail/sha_table_generators.hpp>

#include "thread_sim.hpp"

using namespace sim;

typedef nil::crypto3::algebra::curves::pallas::base_field_type field;
typedef typename field::integral_type integral;

namespace nil {
    namespace blueprint {
        namespace components {
            namespace detail {
                // chosen only when the library has no such helper
                template<typename F>
                bool base4_reverse_table_worker(...) {
                    return false;
                }
                template<typename F>
                bool base7_reverse_table_worker(...) {
                    return false;
                }
            }    // namespace detail
        }        // namespace components
    }            // namespace blueprint
}    // namespace nil

namespace {
    using namespace nil::blueprint::components::detail;
    typedef std::unordered_set<std::pair<integral, integral>, SumHash<field, 15>> set_t;
    typedef std::set<std::pair<u64, u64>> pairs_t;

    std::uint32_t rotr(std::uint32_t x, int n) {
        return (x >> n) | (x << (32 - n));
    }

    // the defining function: how many of the three rotated (or shifted) words have each bit set, cut into four groups of
    // eight digits; preimage = parities, image = digits in the given base
    void model_word(std::uint32_t w, int base, pairs_t &out) {
        std::vector<std::array<std::uint32_t, 3>> fs;
        if (base == 4) {
            fs.push_back({rotr(w, 7), rotr(w, 18), w >> 3});
            fs.push_back({rotr(w, 17), rotr(w, 19), w >> 10});
            fs.push_back({rotr(w, 2), rotr(w, 13), rotr(w, 22)});
        } else {
            fs.push_back({rotr(w, 6), rotr(w, 11), rotr(w, 25)});
        }
        for (auto &f : fs)
            for (int ch = 0; ch < 4; ch++) {
                u64 pre = 0, img = 0;
                for (int j = 7; j >= 0; j--) {
                    int bit = 8 * ch + j;
                    int d = int((f[0] >> bit) & 1) + int((f[1] >> bit) & 1) + int((f[2] >> bit) & 1);
                    pre = pre * 2 + (d & 1);
                    img = img * base + d;
                }
                out.insert({pre, img});
            }
    }

    template<std::size_t N>
    void generate_n(int base, set_t &s, std::size_t size) {
        if (base == 4)
            generate_base4_reverse_table<field, N>(s, size);
        else
            generate_base7_reverse_table<field, N>(s, size);
    }
    void generate(int base, int threads, set_t &s, std::size_t size) {
        switch (threads) {
            case 1: generate_n<1>(base, s, size); break;
            case 2: generate_n<2>(base, s, size); break;
            case 4: generate_n<4>(base, s, size); break;
            case 6: generate_n<6>(base, s, size); break;
            default: generate_n<8>(base, s, size); break;
        }
    }
    int thread_count(i64 k) {
        static const int t[] = {2, 4, 1, 8, 6};
        return t[((k % 5) + 5) % 5];
    }

    struct C09 : Harness {
        const char *property() const override { return "C09"; }
        const char *rule() const override {
            return "a run generates 1..3 tables (base 4 or 7, 1..8 worker threads, 2..6 leading bits, or simulated threads running "
                   "the per-range worker over full 32-bit words) under one simulated schedule (random walk, PCT priorities, "
                   "switches at synchronisation only, round robin); non-trivial: at least two threads overlapped; distinct by "
                   "event log, which contains the interleaving hash";
        }
        const char *state_measure() const override {
            return "hash of the sequence of (thread, lock/create/join/switch) events of a run: distinct interleavings";
        }
        std::vector<std::string> real_components() const override {
            return {"sha_table_generators.hpp", "split_functions.hpp", "std::thread, std::mutex, std::unordered_set, std::map"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field types (stand-in)", "thread scheduler, pthread and mutex calls (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"interleavings are sequentially consistent; weaker memory orders are covered by the race detector, which "
                    "reports any unsynchronised conflicting access on the executed schedule",
                    "accesses inside uninstrumented library code (libstdc++.so, libc) are not interleaving points"};
        }
        std::vector<std::string> fault_kinds() const override { return {"thread-creation-refused", "preemption"}; }
        std::vector<std::string> probe_names() const override {
            return {"lock-contended", "threads-overlapped", "creation-failed-after-start", "full-words"};
        }
        bool reports_decisions() const override { return true; }
        Scenario with_decisions(const Scenario &s, const std::string &d) override { return thread_sim::with_list(s, d); }
        u64 default_runs(bool thorough) const override { return thorough ? 400000 : 6000; }
        int cpu_limit_s() const override { return 60; }

        Scenario generate(Rng &g, u64 run) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            static const i64 strat[] = {thread_sim::random_walk, thread_sim::pct, thread_sim::sync_only, thread_sim::random_walk,
                                        thread_sim::round_robin};
            s.cfg["strategy"] = strat[g.below(5)];
            s.cfg["sched_seed"] = i64(g.next() >> 2);
            static const i64 rates[] = {7, 40, 200, 1000, 5000, 20000};
            s.cfg["rate"] = rates[g.below(6)];
            s.cfg["points"] = g.range(1, 6);
            s.cfg["expected"] = i64(1) << g.range(10, 18);
            u64 n = g.range(1, 2);
            for (u64 i = 0; i < n; i++) {
                if (g.chance(1, 3)) {
                    // simulated callers of the range worker over arbitrary 32-bit words
                    std::vector<i64> a = {i64(g.below(2)), g.range(2, 4)};
                    for (i64 k = 0; k < a[1]; k++) {
                        i64 w = g.chance(1, 4) ? (i64(1) << g.below(32)) : g.chance(1, 6) ? 0xFFFFFFFE : i64(g.next() & 0xFFFFFFFF);
                        a.push_back(w);
                        a.push_back(g.range(1, 6));
                    }
                    s.add("words", a);
                } else {
                    i64 refuse = run % 4 == 3 && g.chance(1, 2) ? g.range(1, 8) : 0;
                    i64 th = g.below(5);
                    i64 lo = thread_count(th) > 4 ? 3 : thread_count(th) > 2 ? 2 : 1;
                    s.add("table", {i64(g.below(2)), th, g.range(lo, 6), refuse});
                }
            }
            return s;
        }

        void execute(const Scenario &s, Ctx &c) override {
            thread_sim::config base_cfg;
            base_cfg.how = thread_sim::strategy(s.get("strategy"));
            base_cfg.seed = s.get("sched_seed");
            base_cfg.rate = std::max<i64>(1, s.get("rate", 1000));
            base_cfg.change_points = s.get("points", 3);
            base_cfg.expected_steps = std::max<i64>(1, s.get("expected", 1000));
            thread_sim::parse_list(s, base_cfg);
            u64 created_before = 0;
            // refusals are numbered over the whole run
            std::vector<i64> refusals;
            thread_sim::start(base_cfg);
            struct result {
                int base, threads;
                std::size_t size;
                bool threw;
                pairs_t got, want;
                int live;
                bool big;
            };
            std::vector<result> rs;
            auto collect = [](const set_t &out, result &r) {
                for (auto &p : out) {
                    if (p.first > 0xFFFFFFFFu || p.second > 0xFFFFFFFFu)
                        r.big = true;
                    else
                        r.got.insert({u64(p.first), u64(p.second)});
                }
                if (r.got.size() != out.size())
                    r.big = true;
            };
            thread_sim::report rep;
            auto finish = [&]() {
                rep = thread_sim::stop();
                decisions(rep.decisions);
            };
            bool threw_other = false;
            std::string other;
            for (const Step &st : s.steps) {
                if (st.op == "table") {
                    result r {st.arg(0) ? 7 : 4, thread_count(st.arg(1)), std::size_t(std::min<i64>(8, std::max<i64>(st.arg(2), 0))), false, {}, {}, 0, false};
                    std::size_t lo = r.threads > 4 ? 3 : r.threads > 2 ? 2 : r.threads > 1 ? 1 : 0;
                    if (r.threads == 6)
                        lo = std::max<std::size_t>(lo, 3);
                    r.size = std::max(r.size, lo);
                    set_t out;
                    thread_refuse(st.arg(3) > 0 && st.arg(3) <= r.threads ? int(st.arg(3)) : 0);
                    try {
                        ::generate(r.base, r.threads, out, r.size);
                    } catch (const std::system_error &) {
                        r.threw = true;
                    } catch (const std::exception &e) {
                        threw_other = true;
                        other = e.what();
                    }
                    thread_refuse(0);
                    r.live = thread_sim::live();
                    collect(out, r);
                    rs.push_back(r);
                } else if (st.op == "words") {
                    result r {st.arg(0) ? 7 : 4, int(std::max<i64>(1, std::min<i64>(4, st.arg(1)))), 32, false, {}, {}, 0, false};
                    set_t out;
                    std::mutex m;
                    std::vector<std::thread> ts;
                    std::vector<std::pair<u64, u64>> ranges;
                    for (int k = 0; k < r.threads; k++) {
                        u64 w = u64(st.arg(2 + 2 * k)) & 0xFFFFFFFFu, n = std::min<i64>(8, std::max<i64>(0, st.arg(3 + 2 * k)));
                        ranges.push_back({w, std::min<u64>(w + n, 0x100000000ull)});
                    }
                    bool have = true;
                    auto call = [&](u64 lo, u64 hi) {
                        if (r.base == 4) {
                            if constexpr (!std::is_same<decltype(base4_reverse_table_worker<field>(out, integral(0), integral(1), std::size_t(32), m)), bool>::value)
                                base4_reverse_table_worker<field>(out, integral(lo), integral(hi), 32, m);
                            else
                                have = false;
                        } else {
                            if constexpr (!std::is_same<decltype(base7_reverse_table_worker<field>(out, integral(0), integral(1), std::size_t(32), m)), bool>::value)
                                base7_reverse_table_worker<field>(out, integral(lo), integral(hi), 32, m);
                            else
                                have = false;
                        }
                    };
                    // the library fills its power cache before it starts workers
                    call(0, 1);
                    for (auto &rg : ranges)
                        ts.emplace_back([&call, rg]() { call(rg.first, rg.second); });
                    for (auto &t : ts)
                        t.join();
                    r.live = thread_sim::live();
                    if (have) {
                        collect(out, r);
                        model_word(0, r.base, r.want);
                        for (auto &rg : ranges)
                            for (u64 w = rg.first; w < rg.second; w++)
                                model_word(std::uint32_t(w), r.base, r.want);
                        r.size = 0;
                        rs.push_back(r);
                    }
                }
            }
            finish();
            c.sim_steps += rep.steps;
            c.fault("thread-creation-refused", rep.refused);
            c.fault("preemption", rep.preemptions);
            c.probe("lock-contended", rep.contended);
            c.probe("threads-overlapped", rep.switches > 2);
            c.nontrivial = rep.switches > 2;
            c.event("steps " + std::to_string(rep.steps) + " switches " + std::to_string(rep.switches) + " interleaving " +
                    std::to_string(rep.interleaving));
            c.state(rep.interleaving);
            c.require(!rep.race, "data-race", rep.race_text);
            c.require(!threw_other, "unexpected-exception", other);
            for (auto &r : rs) {
                std::string what = "base " + std::to_string(r.base) + ", " + std::to_string(r.threads) + " threads, " +
                                   (r.size ? std::to_string(r.size) + " bits" : "full words");
                c.event(what + (r.threw ? " refused" : " done") + " pairs " + std::to_string(r.got.size()));
                c.require(r.live == 0, "worker-outlives-call", what + ": a worker thread was still running when the call ended");
                if (r.threw) {
                    c.probe("creation-failed-after-start", rep.created > 1);
                    c.require(rep.refused > 0, "unexpected-exception", what + ": failed although no thread was refused");
                    continue;
                }
                if (r.size) {
                    model_word(0, r.base, r.want);
                    for (u64 v = 0; v < (u64(1) << r.size); v++)
                        model_word(std::uint32_t(v << (32 - r.size)), r.base, r.want);
                } else
                    c.probe("full-words");
                c.require(!r.big, "wrong-table", what + ": a pair is out of range");
                for (auto &p : r.want)
                    c.require(r.got.count(p), "missing-pair",
                              what + ": pair (" + std::to_string(p.first) + ", " + std::to_string(p.second) + ") is missing");
                for (auto &p : r.got)
                    c.require(r.want.count(p), "extra-pair",
                              what + ": pair (" + std::to_string(p.first) + ", " + std::to_string(p.second) + ") does not belong");
            }
        }

        static void thread_refuse(int ordinal);
    };
}    // namespace

namespace sim {
    void thread_refuse_next(int ordinal_from_now);
}
namespace {
    void C09::thread_refuse(int ordinal) {
        sim::thread_refuse_next(ordinal);
    }
}    // namespace

int main(int argc, char **argv) {
    C09 h;
    return sim::main(h, argc, argv);
}
