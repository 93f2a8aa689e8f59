// Deterministic simulation core.
//
// A harness describes one property.  generate() turns PRNG draws into an explicit scenario (configuration values, the
// interleaved steps of all parties, and every fault with the place where it strikes); execute() runs the real code of
// /repo on a scenario and is a pure function of it.  Everything a run depends on is therefore in the scenario, which is
// also the replay file.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sim {
    typedef std::uint64_t u64;
    typedef long long i64;

    inline u64 splitmix(u64 &s) {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    struct Rng {
        u64 s;
        explicit Rng(u64 seed) : s(seed) {}
        u64 next() { return splitmix(s); }
        u64 below(u64 n) { return n ? next() % n : 0; }
        i64 range(i64 lo, i64 hi) { return lo + i64(below(u64(hi - lo + 1))); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        template<typename T>
        const T &pick(const std::vector<T> &v) {
            return v[below(v.size())];
        }
        // index drawn with the given weights
        std::size_t weighted(const std::vector<unsigned> &w) {
            u64 total = 0;
            for (unsigned x : w)
                total += x;
            u64 r = below(total);
            for (std::size_t i = 0; i < w.size(); i++) {
                if (r < w[i])
                    return i;
                r -= w[i];
            }
            return w.size() - 1;
        }
    };

    struct Step {
        std::string op;
        std::vector<i64> a;
        i64 arg(std::size_t i, i64 dflt = 0) const { return i < a.size() ? a[i] : dflt; }
        bool operator==(const Step &o) const { return op == o.op && a == o.a; }
    };

    struct Scenario {
        std::map<std::string, i64> cfg;
        std::vector<Step> steps;
        i64 get(const std::string &k, i64 dflt = 0) const {
            auto it = cfg.find(k);
            return it == cfg.end() ? dflt : it->second;
        }
        void add(const std::string &op, std::vector<i64> a = {}) { steps.push_back({op, std::move(a)}); }
        std::string text() const;
        static bool parse(std::istream &in, Scenario &out, std::map<std::string, std::string> &meta);
    };

    struct Violation {
        std::string cls, msg;
    };

    inline u64 fnv(const void *p, std::size_t n, u64 h = 1469598103934665603ull) {
        const unsigned char *c = static_cast<const unsigned char *>(p);
        for (std::size_t i = 0; i < n; i++) {
            h ^= c[i];
            h *= 1099511628211ull;
        }
        return h;
    }
    inline u64 fnv(const std::string &s, u64 h = 1469598103934665603ull) {
        return fnv(s.data(), s.size(), h);
    }
    inline u64 mix(u64 h, u64 v) {
        return fnv(&v, sizeof v, h);
    }

    // What one run reports.
    struct Ctx {
        u64 hash = 1469598103934665603ull;
        u64 events = 0;
        u64 sim_steps = 0;    // simulated time: scheduler steps of this run
        bool nontrivial = false;
        bool verbose = false;
        std::map<std::string, u64> faults;    // fault kinds that actually struck
        std::map<std::string, u64> probes;    // rare conditions reached
        std::set<u64> states;                 // distinct states/interleavings by the harness's measure
        void event(const std::string &s) {
            hash = fnv(s, hash);
            hash = fnv("\n", 1, hash);
            events++;
            if (verbose) {
                std::fwrite(s.data(), 1, s.size(), stdout);
                std::fputc('\n', stdout);
                std::fflush(stdout);
            }
        }
        void event_hash(u64 v) {
            hash = mix(hash, v);
            events++;
        }
        void fault(const std::string &kind, u64 n = 1) {
            if (n)
                faults[kind] += n;
        }
        void probe(const std::string &name, u64 n = 1) {
            if (n)
                probes[name] += n;
        }
        void state(u64 h) {
            if (states.size() < 4096)
                states.insert(h);
        }
        void require(bool ok, const std::string &cls, const std::string &msg) {
            if (!ok)
                throw Violation {cls, msg};
        }
    };

    struct Harness {
        virtual ~Harness() {}
        virtual const char *property() const = 0;
        virtual const char *rule() const = 0;             // how cases are made, what makes one non-trivial
        virtual const char *state_measure() const = 0;    // what Ctx::state() hashes
        virtual std::vector<std::string> real_components() const = 0;
        virtual std::vector<std::string> stub_components() const = 0;
        virtual std::vector<std::string> assumptions() const { return {}; }
        virtual std::vector<std::string> fault_kinds() const = 0;    // reported even when they did not strike
        virtual std::vector<std::string> probe_names() const { return {}; }
        virtual Scenario generate(Rng &rng, u64 run) = 0;
        virtual void execute(const Scenario &s, Ctx &c) = 0;
        // after a failing run: give the scenario the decisions that were taken while it ran (thread schedules)
        virtual bool reports_decisions() const { return false; }
        // a scenario taken from the failing run with its recorded decisions
        virtual Scenario with_decisions(const Scenario &s, const std::string &) { return s; }
        virtual u64 default_runs(bool thorough) const = 0;
        virtual int cpu_limit_s() const { return 30; }
    };

    // Allocation faults: while armed, the n-th operator new (counting from 1) throws std::bad_alloc once.
    struct alloc {
        static void arm(i64 nth);        // 0: count only
        static u64 disarm();             // returns allocations seen since arm()
        static bool fired();
        static void fill(unsigned char byte);    // pattern for fresh memory
    };
    // Scope in which allocations are counted / may fail.
    struct alloc_scope {
        explicit alloc_scope(i64 nth) { alloc::arm(nth); }
        ~alloc_scope() { alloc::disarm(); }
    };
    // Suspends counting and failing (harness bookkeeping inside an armed region).
    struct alloc_pause {
        alloc_pause();
        ~alloc_pause();
        bool saved;
    };

    // The entropy seam (boost::random::random_device, /dev/urandom of the real program).
    struct entropy {
        static void seed(u64 s);
        static u64 draws();
        static void fail_at(i64 nth);    // the nth construction/draw throws, 0: never
    };

    void decisions(const std::string &s);    // recorded decisions of this run (see reports_decisions)

    int main(Harness &h, int argc, char **argv);
}    // namespace sim

#endif
