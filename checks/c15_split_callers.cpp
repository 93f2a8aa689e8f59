// C15: SHA digit-splitting helpers are safe and exact for concurrent callers.
// modules: thread_sim
// build: -fsanitize=thread
#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/fields/arithmetic_params/pallas.hpp>

#include <thread>
#include <nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp>

#include "thread_sim.hpp"

using namespace sim;

typedef nil::crypto3::algebra::curves::pallas::base_field_type field;
typedef typename field::integral_type integral;
typedef unsigned __int128 u128;

namespace {
    namespace lib = nil::blueprint::components::detail;

    struct call {
        int fn;      // 0 split_and_sparse, 1 reversed, 2 maj, 3 ch
        int base;
        std::vector<std::size_t> sizes;
        std::vector<int> digits;    // most significant first
        std::array<std::vector<integral>, 2> got;
        bool threw = false;
    };

    const std::vector<std::vector<std::size_t>> shapes = {
        {8, 8, 8, 8}, {14}, {8}, {3, 4, 11, 14}, {10, 7, 2, 13}, {2, 11, 9, 10}, {6, 5, 14, 7}, {1}, {32}, {16, 16}, {5, 1, 3}, {1, 1, 1, 1}};

    call make_call(const Step &st) {
        call c;
        c.fn = int(u64(st.arg(1)) % 4);
        c.base = c.fn == 2 ? 4 : c.fn == 3 ? 7 : (st.arg(2) & 1) ? 7 : 4;
        c.sizes = shapes[u64(st.arg(3)) % shapes.size()];
        Rng g(u64(st.arg(4)) * 2654435761u + 17);
        std::size_t total = 0;
        for (auto s : c.sizes)
            total += s;
        int top = c.fn == 0 ? 2 : c.base;
        u64 style = g.below(4);
        for (std::size_t i = 0; i < total; i++)
            c.digits.push_back(style == 0 ? 0 : style == 1 ? top - 1 : int(g.below(top)));
        if (style == 0)
            c.digits[g.below(total)] = top - 1;
        return c;
    }

    integral to_integral(u128 v) {
        integral r = u64(v >> 64);
        r <<= 64;
        r += u64(v);
        return r;
    }

    void perform(call &c) {
        try {
            if (c.fn == 0) {
                std::vector<bool> bits(c.digits.begin(), c.digits.end());
                c.got = lib::split_and_sparse<field>(bits, c.sizes, c.base);
            } else {
                u128 v = 0;
                for (int d : c.digits)
                    v = v * c.base + d;
                integral iv = to_integral(v);
                if (c.fn == 1)
                    c.got = lib::reversed_sparse_and_split<field>(iv, c.sizes, c.base);
                else if (c.fn == 2)
                    c.got = lib::reversed_sparse_and_split_maj<field>(iv, c.sizes, c.base);
                else
                    c.got = lib::reversed_sparse_and_split_ch<field>(iv, c.sizes, c.base);
            }
        } catch (const std::exception &) {
            c.threw = true;
        }
    }

    // the last entry of sizes holds the most significant digits
    std::string wrong(const call &c) {
        if (c.threw)
            return "threw";
        if (c.got[0].size() != c.sizes.size() || c.got[1].size() != c.sizes.size())
            return "wrong number of chunks";
        std::size_t p = 0;
        for (std::size_t i = c.sizes.size(); i-- > 0;) {
            u128 bin = 0, sparse = 0;
            for (std::size_t j = 0; j < c.sizes[i]; j++, p++) {
                int d = c.digits[p];
                int b = c.fn == 2 ? d >= 2 : c.fn == 3 ? (d == 3 || d >= 5) : d & 1;
                bin = bin * 2 + b;
                sparse = sparse * c.base + d;
            }
            if (c.got[0][i] != to_integral(bin))
                return "binary chunk " + std::to_string(i) + " is wrong";
            if (c.got[1][i] != to_integral(sparse))
                return "sparse chunk " + std::to_string(i) + " is wrong";
        }
        return "";
    }

    struct C15 : Harness {
        const char *property() const override { return "C15"; }
        const char *rule() const override {
            return "a run lets 2..5 simulated caller threads make 2..24 split/join calls (all four helpers, bases 4 and 7, twelve "
                   "chunk shapes, random and extreme digits) under one simulated schedule; non-trivial: at least two threads "
                   "overlapped; distinct by event log with the interleaving hash";
        }
        const char *state_measure() const override {
            return "hash of the sequence of (thread, create/join/switch) events of a run: distinct interleavings";
        }
        std::vector<std::string> real_components() const override { return {"split_functions.hpp", "std::map"}; }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field types (stand-in)", "thread scheduler and pthread calls (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"interleavings are sequentially consistent; the race detector covers weaker orders"};
        }
        std::vector<std::string> fault_kinds() const override { return {"preemption"}; }
        std::vector<std::string> probe_names() const override { return {"first-use-raced", "threads-overlapped", "mixed-bases"}; }
        bool reports_decisions() const override { return true; }
        Scenario with_decisions(const Scenario &s, const std::string &d) override { return thread_sim::with_list(s, d); }
        u64 default_runs(bool thorough) const override { return thorough ? 2000000 : 10000; }

        Scenario generate(Rng &g, u64 run) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            static const i64 strat[] = {thread_sim::random_walk, thread_sim::pct, thread_sim::random_walk, thread_sim::round_robin};
            s.cfg["strategy"] = strat[g.below(4)];
            s.cfg["sched_seed"] = i64(g.next() >> 2);
            static const i64 rates[] = {5, 20, 100, 500, 2000};
            s.cfg["rate"] = rates[g.below(5)];
            s.cfg["points"] = g.range(1, 6);
            s.cfg["expected"] = i64(1) << g.range(6, 14);
            s.cfg["warm"] = g.below(2);
            i64 th = g.range(2, 5);
            s.cfg["threads"] = th;
            u64 n = g.range(2, 24);
            for (u64 i = 0; i < n; i++)
                s.add("call", {i64(g.below(th)), i64(g.below(4)), i64(g.below(2)), i64(g.below(shapes.size())), i64(g.below(100000))});
            return s;
        }

        void execute(const Scenario &s, Ctx &c) override {
            thread_sim::config k;
            k.how = thread_sim::strategy(s.get("strategy"));
            k.seed = s.get("sched_seed");
            k.rate = std::max<i64>(1, s.get("rate", 100));
            k.change_points = s.get("points", 3);
            k.expected_steps = std::max<i64>(1, s.get("expected", 1000));
            thread_sim::parse_list(s, k);
            std::size_t n = std::max<i64>(1, std::min<i64>(5, s.get("threads", 2)));
            std::vector<std::vector<call>> work(n);
            std::set<int> bases;
            for (auto &st : s.steps)
                if (st.op == "call") {
                    work[u64(st.arg(0)) % n].push_back(make_call(st));
                    bases.insert(work[u64(st.arg(0)) % n].back().base);
                }
            if (s.get("warm")) {
                call w = make_call({"call", {0, 1, 0, 0, 5}});
                perform(w);
                c.require(wrong(w).empty(), "wrong-digits", "single caller: " + wrong(w));
            }
            thread_sim::start(k);
            {
                std::vector<std::thread> ts;
                for (std::size_t i = 0; i < n; i++)
                    ts.emplace_back([&work, i]() {
                        for (auto &x : work[i])
                            perform(x);
                    });
                for (auto &t : ts)
                    t.join();
            }
            thread_sim::report rep = thread_sim::stop();
            decisions(rep.decisions);
            c.sim_steps += rep.steps;
            c.fault("preemption", rep.preemptions);
            c.probe("threads-overlapped", rep.switches > 2);
            c.probe("first-use-raced", !s.get("warm") && rep.preemptions > 0);
            c.probe("mixed-bases", bases.size() > 1);
            c.nontrivial = rep.switches > 2;
            c.event("steps " + std::to_string(rep.steps) + " interleaving " + std::to_string(rep.interleaving));
            c.state(rep.interleaving);
            c.require(!rep.race, "data-race", rep.race_text);
            for (std::size_t i = 0; i < n; i++)
                for (auto &x : work[i]) {
                    std::string w = wrong(x);
                    c.event("call " + std::to_string(x.fn) + " " + std::to_string(x.base) + " " + w);
                    c.require(w.empty(), "wrong-digits",
                              "helper " + std::to_string(x.fn) + ", base " + std::to_string(x.base) + ": " + w);
                }
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C15 h;
    return sim::main(h, argc, argv);
}
