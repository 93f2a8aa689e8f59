// C08: a failed allocation never leaves a half-applied building operation.
#include "build_script.hpp"

using namespace sim;
using namespace kit;

namespace {
    struct C08 : Harness {
        const char *property() const override { return "C08"; }
        const char *rule() const override {
            return "a run interleaves 3..50 building operations of 1..3 provers on one shared circuit and table; chosen operations meet an "
                   "allocation failure at a chosen allocation and are repeated at once or after other operations; non-trivial: a failure "
                   "struck; distinct by event log";
        }
        const char *state_measure() const override { return "hash of (operation, number of the failed allocation) pairs"; }
        std::vector<std::string> real_components() const override {
            return {"circuit.hpp", "circuit_proxy.hpp", "assignment.hpp", "assignment_proxy.hpp", "gate_id.hpp", "lookup_library.hpp"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions, constraint system, table base class (stand-in)", "operator new (simulated failures)",
                    "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"a caller who is told about a failure repeats the operation sooner or later; what an operation that is never repeated "
                    "leaves behind (for example a row marked as used) is not judged",
                    "an operation that reported a failure after it had reached the shared circuit counts as done at that point; its "
                    "repetition must then give the same result and add nothing"};
        }
        std::vector<std::string> fault_kinds() const override { return {"allocation-failed"}; }
        std::vector<std::string> probe_names() const override {
            return {"repeated-later", "failed-again", "failed-attempt-took-effect", "gate-failed", "lookup-gate-failed", "copy-failed", "reservation-failed", "closing-failed",
                    "batched-variable-failed", "cell-failed", "shared-value-failed"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 1000000 : 30000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            s.cfg["entropy"] = i64(g.next() >> 2);
            i64 n = g.range(1, 3);
            s.cfg["provers"] = n;
            for (const char *k : {"w", "p", "c", "s"})
                s.cfg[k] = g.range(1, 4);
            u64 base = g.below(400), fam = g.range(1, 3), steps = g.range(3, g.chance(1, 4) ? 50 : 16);
            auto w = op_weights(g);
            i64 rows = g.pick(std::vector<i64> {3, 8, 40});
            i64 actor = 0;
            for (u64 i = 0; i <= steps; i++) {
                if (g.chance(2, 3))
                    actor = g.chance(1, 6) ? n : g.below(n);
                if (g.chance(1, 2))
                    s.add("fail", {g.chance(3, 4) ? g.range(1, 12) : g.range(1, 200), g.chance(1, 2) ? 0 : g.range(1, 6)});
                if (i == steps)
                    s.add("close", {actor});
                else
                    s.steps.push_back(random_op(g, actor, base, fam, rows, w));
            }
            return s;
        }

        void execute(const Scenario &s, Ctx &c) override {
            entropy::seed(s.get("entropy"));
            auto size = [&](const char *k) { return std::size_t(std::max<i64>(1, std::min<i64>(6, s.get(k, 1)))); };
            world w(size("provers"), size("w"), size("p"), size("c"), size("s"));
            std::vector<std::pair<Step, std::string>> done;
            struct repetition {
                std::size_t due;
                Step st;
                i64 slot;    // position in done when the failed attempt already reached the shared objects, else -1
            };
            std::vector<repetition> again;
            std::function<void(const Step &, i64, i64, std::size_t, i64)> attempt = [&](const Step &st, i64 nth, i64 delay, std::size_t now,
                                                                                      i64 slot) {
                c.sim_steps++;
                std::string before = w.sizes();
                w.fail_nth = nth;
                w.fired = false;
                std::string r;
                try {
                    r = w.apply(st);
                } catch (const op_failed &) {
                    w.fail_nth = 0;
                    c.fault("allocation-failed");
                    c.event("failed " + st.op + " " + std::to_string(nth));
                    c.state(mix(fnv(st.op), u64(nth)));
                    c.probe(st.op.compare(0, 4, "gate") == 0 || st.op == "attach" ? "gate-failed" :
                            st.op.compare(0, 6, "lookup") == 0                    ? "lookup-gate-failed" :
                            st.op == "copy"                                       ? "copy-failed" :
                            st.op.compare(0, 7, "reserve") == 0                   ? "reservation-failed" :
                            st.op == "close"                                      ? "closing-failed" :
                            st.op.compare(0, 5, "batch") == 0                     ? "batched-variable-failed" :
                            st.op.compare(0, 5, "share") == 0                     ? "shared-value-failed" :
                                                                                    "cell-failed");
                    c.nontrivial = true;
                    if (w.sizes() != before) {
                        slot = i64(done.size());
                        done.push_back({st, "-"});
                        c.probe("failed-attempt-took-effect");
                    }
                    if (delay <= 0 || !world::deferrable(st)) {
                        attempt(st, 0, 0, now, slot);
                        return;
                    }
                    again.push_back({now + std::size_t(std::max<i64>(0, std::min<i64>(20, delay))), st, slot});
                    c.probe("repeated-later", delay > 0);
                    return;
                }
                w.fail_nth = 0;
                if (r == "-")
                    return;
                c.event(st.op + " " + r);
                if (slot >= 0)
                    done[slot].second = r;
                else
                    done.push_back({st, r});
            };
            i64 nth = 0, delay = 0;
            std::size_t now = 0;
            auto repeat_due = [&](bool all) {
                for (std::size_t i = 0; i < again.size();) {
                    if (all || again[i].due <= now) {
                        repetition r = again[i];
                        again.erase(again.begin() + i);
                        attempt(r.st, 0, 0, now, r.slot);
                        i = 0;
                    } else {
                        i++;
                    }
                }
            };
            for (auto &st : s.steps) {
                if (st.op == "fail") {
                    nth = st.arg(0);
                    delay = st.arg(1);
                    continue;
                }
                if (st.op == "close")
                    repeat_due(true);
                attempt(w.resolved(st), nth, delay, now, -1);
                c.probe("failed-again", nth && again.size() > 1);
                nth = 0;
                now++;
                repeat_due(false);
            }
            repeat_due(true);
            // the same operations, in the order in which they succeeded, without failures
            world ref(size("provers"), size("w"), size("p"), size("c"), size("s"));
            for (std::size_t i = 0; i < done.size(); i++) {
                std::string r = ref.apply(done[i].first);
                c.require(r == done[i].second, "result-differs",
                          done[i].first.op + " (operation " + std::to_string(i) + ") gave '" + done[i].second + "' after failures, '" + r +
                              "' without");
            }
            std::string a = w.dump(), b = ref.dump();
            c.require(a == b, "state-differs", "after failures and repetitions: " + first_difference(a, b) + " without failures");
            a = w.close_and_dump_tables();
            b = ref.close_and_dump_tables();
            c.require(a == b, "tables-differ", "lookup tables after failures: " + first_difference(a, b) + " without failures");
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C08 h;
    return sim::main(h, argc, argv);
}
