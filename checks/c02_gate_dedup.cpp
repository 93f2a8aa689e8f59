// C02: equal gates share one selector, different gates never do.
#include "plonk_kit.hpp"

using namespace sim;
using namespace kit;

namespace {
    // stretches of draws that come out as zero
    std::vector<std::pair<u64, u64>> zero_draws;
    u64 zeros_delivered = 0;
    bool zero_hook(std::uint64_t n) {
        for (auto &z : zero_draws)
            if (n >= z.first && n < z.first + z.second) {
                zeros_delivered++;
                return true;
            }
        return false;
    }

    struct model {
        std::size_t next = 0;
        std::vector<mgate> gates, lookups;
        // selector by sorted content; [0] list forms, [1] single form
        std::map<std::string, std::size_t> known[2], known_lookup[2];
    };

    struct C02 : Harness {
        const char *property() const override { return "C02"; }
        const char *rule() const override {
            return "a run makes 4..60 gate and lookup gate requests on 1..3 circuits of one process in list, single and "
                   "initializer forms; constraints come from families of near-identical polynomials (one rotation, index, "
                   "coefficient, column kind, sign or power changed), rewritten in different but equal forms and orders; the "
                   "random source has a simulated seed, may fail and may deliver zeros; non-trivial: at least one repeated "
                   "and one new request; distinct by event log";
        }
        const char *state_measure() const override { return "hash of (gates, lookup gates, selectors) of a circuit after each request"; }
        std::vector<std::string> real_components() const override {
            return {"circuit.hpp gate registration", "gate_id.hpp", "std::map"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions, constraint system (stand-in)", "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"identically vanishing constraints are not requested; a single constraint and a list holding only it may or may "
                    "not share a selector; rotations -1..1"};
        }
        std::vector<std::string> fault_kinds() const override { return {"zero-draw", "entropy-source-failure"}; }
        std::vector<std::string> probe_names() const override {
            return {"repeat-request", "repeat-in-other-order", "repeat-in-other-writing", "near-miss-request", "more-than-20-constraints",
                    "table-id-above-20", "second-circuit", "inputs-rearranged", "gate-after-reserved-selector"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 2000000 : 40000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            s.cfg["entropy"] = i64(g.next() >> 2);
            s.cfg["entropy_fail"] = g.chance(1, 10) ? g.range(1, 3) : 0;
            s.cfg["circuits"] = g.chance(1, 3) ? g.range(2, 3) : 1;
            s.cfg["cols"] = g.chance(1, 4) ? 40 : 6;
            if (g.chance(1, 3))
                for (i64 n = g.range(1, 6); n > 0; n--)
                    s.add("zero", {i64(g.below(g.chance(1, 2) ? 70 : 400)), i64(g.range(1, 4))});
            u64 families = g.range(1, 5), base = g.below(500);
            u64 n = g.range(4, g.chance(1, 5) ? 60 : 20);
            std::vector<Step> past;
            for (u64 i = 0; i < n; i++) {
                if (!past.empty() && g.chance(2, 5)) {
                    Step st = g.pick(past);
                    st.a[0] = g.below(3);
                    st.a[2] = g.below(6);
                    st.a[3] = g.below(4);
                    if (g.chance(1, 3) && st.a.size() > 4) {    // one detail changed
                        std::size_t w = 4 + g.below(st.a.size() - 4);
                        st.a[w] = st.op == "lookup" && w % 2 == 0 ? g.range(1, 4) : (st.a[w] / 8) * 8 + g.below(8);
                        if (st.op == "lookup" && w % 2 == 0 && g.chance(1, 2))    // the same inputs, arranged otherwise
                            st.a[w] = st.a[w] % 64 + 64 * i64(g.below(4));
                    }
                    if (g.chance(1, 8) && st.op == "gate")
                        st.a.push_back(st.a.back());
                    s.steps.push_back(st);
                    past.push_back(st);
                    continue;
                }
                u64 what = g.weighted({10, 6, 1, 1});
                if (what == 0) {
                    std::vector<i64> a = {i64(g.below(3)), i64(g.below(3)), i64(g.below(6)), i64(g.below(4))};
                    u64 m = g.chance(1, 30) ? g.range(20, 26) : g.range(1, 4);
                    for (u64 j = 0; j < m; j++)
                        a.push_back(i64((base + g.below(families)) * 8 + g.below(8)));
                    s.add("gate", a);
                    past.push_back(s.steps.back());
                } else if (what == 1) {
                    std::vector<i64> a = {i64(g.below(3)), i64(g.below(3)), i64(g.below(6)), i64(g.below(4))};
                    u64 m = g.chance(1, 30) ? g.range(20, 24) : g.range(1, 3);
                    for (u64 j = 0; j < m; j++) {
                        a.push_back(g.chance(1, 20) ? g.range(19, 45) : g.range(1, 4));
                        a.push_back(i64((base + g.below(families)) * 8 + g.below(8)));
                    }
                    s.add("lookup", a);
                    past.push_back(s.steps.back());
                } else if (what == 2) {
                    s.add("reserve", {i64(g.below(3))});
                } else {
                    s.add("attach", {i64(g.below(3)), i64(g.below(1000)), i64((base + g.below(families)) * 8 + g.below(8))});
                }
            }
            return s;
        }

        template<typename T>
        static void permute(std::vector<T> &v, u64 perm) {
            Rng g(perm * 97 + 3);
            if (perm)
                for (std::size_t i = v.size(); i > 1; i--)
                    std::swap(v[i - 1], v[g.below(i)]);
        }

        void execute(const Scenario &s, Ctx &c) override {
            entropy::seed(s.get("entropy"));
            entropy::fail_at(s.get("entropy_fail"));
            zero_draws.clear();
            for (auto &st : s.steps)
                if (st.op == "zero")
                    zero_draws.push_back({u64(st.arg(0)), std::min<u64>(8, u64(st.arg(1)))});
            nil::crypto3::random::zero_draw_hook = zero_hook;
            unsigned cols = std::max<i64>(2, s.get("cols", 6));
            std::size_t n = std::max<i64>(1, std::min<i64>(3, s.get("circuits", 1)));
            std::vector<circuit_t> circuits(n);
            std::vector<model> models(n);
            std::map<std::string, u64> orders_seen;
            u64 repeats = 0, fresh = 0;
            for (auto &st : s.steps) {
                std::size_t w = u64(st.arg(st.op == "gate" || st.op == "lookup" ? 1 : 0)) % n;
                circuit_t &b = circuits[w];
                model &m = models[w];
                bool lookup = st.op == "lookup";
                if (w)
                    c.probe("second-circuit");
                c.sim_steps++;
                if (st.op == "gate" || lookup) {
                    int form = int(u64(st.arg(0)) % 3);
                    u64 variant = u64(st.arg(2)), perm = u64(st.arg(3));
                    std::vector<constraint> cs;
                    std::vector<lookup_constraint> ls;
                    std::vector<std::string> names, meanings;
                    if (!lookup) {
                        for (std::size_t i = 4; i < st.a.size(); i++) {
                            poly p = make_poly(u64(st.a[i]), cols);
                            names.push_back(canonical(p));
                            meanings.push_back(meaning(p));
                            cs.push_back(make_constraint(p, variant ? variant * 100 + i : 0));
                        }
                    } else {
                        for (std::size_t i = 4; i + 1 < st.a.size(); i += 2) {
                            lookup_constraint lc;
                            lc.table_id = std::max<u64>(1, u64(st.a[i]) % 64);
                            if (lc.table_id > 20)
                                c.probe("table-id-above-20");
                            std::string name = std::to_string(lc.table_id) + ":", mean = "t" + std::to_string(lc.table_id) + ":";
                            u64 k = u64(st.a[i + 1]), arrangement = (u64(st.a[i]) / 64) % 4;
                            std::vector<poly> inputs;
                            for (u64 j = 0; j < 1 + (k / 8) % 4; j++)
                                inputs.push_back(make_poly(j == 0 ? k : (k / 8) * 8 + 64 * j, cols));
                            if (arrangement == 1)
                                std::reverse(inputs.begin(), inputs.end());
                            else if (arrangement == 2)
                                std::swap(inputs[inputs.size() - 1], inputs[inputs.size() / 2]);
                            else if (arrangement == 3 && inputs.size() > 1)
                                inputs.pop_back();
                            c.probe("inputs-rearranged", arrangement && inputs.size() > 1);
                            for (u64 j = 0; j < inputs.size(); j++) {
                                const poly &p = inputs[j];
                                name += canonical(p) + ",";
                                mean += meaning(p) + ",";
                                lc.lookup_input.push_back(make_constraint(p, variant ? variant * 100 + i + j : 0));
                            }
                            names.push_back(name);
                            meanings.push_back(mean);
                            ls.push_back(lc);
                        }
                    }
                    if (names.empty())
                        continue;
                    if ((form == 1) != (names.size() == 1) && form != 0)
                        form = 0;
                    std::string written;
                    for (auto &x : names)
                        written += x + ";";
                    permute(cs, perm);
                    permute(ls, perm);
                    permute(meanings, perm);
                    std::vector<std::string> sorted = names;
                    std::sort(sorted.begin(), sorted.end());
                    std::string key;
                    for (auto &x : sorted)
                        key += x + ";";
                    c.probe("more-than-20-constraints", names.size() > 20);
                    // what the registry must answer
                    auto *known = lookup ? m.known_lookup : m.known;
                    int cls = form == 1 ? 1 : 0;
                    auto hit = known[cls].find(key);
                    auto other = known[1 - cls].find(key);
                    std::size_t sel = 0;
                    bool done = false;
                    for (int attempt = 0; attempt < 2 && !done; attempt++) {
                        try {
                            if (!lookup) {
                                if (form == 1)
                                    sel = b.add_gate(cs[0]);
                                else if (form == 2 && cs.size() == 2)
                                    sel = b.add_gate({cs[0], cs[1]});
                                else if (form == 2 && cs.size() == 3)
                                    sel = b.add_gate({cs[0], cs[1], cs[2]});
                                else
                                    sel = b.add_gate(cs);
                            } else {
                                if (form == 1)
                                    sel = b.add_lookup_gate(ls[0]);
                                else if (form == 2 && ls.size() == 2)
                                    sel = b.add_lookup_gate({ls[0], ls[1]});
                                else if (form == 2 && ls.size() == 3)
                                    sel = b.add_lookup_gate({ls[0], ls[1], ls[2]});
                                else
                                    sel = b.add_lookup_gate(ls);
                            }
                            done = true;
                        } catch (const std::runtime_error &) {
                            c.require(attempt == 0 && s.get("entropy_fail") != 0, "unexpected-exception", "a gate request failed");
                            c.fault("entropy-source-failure");
                        }
                    }
                    bool grown = lookup ? b.num_lookup_gates() == m.lookups.size() + 1 : b.num_gates() == m.gates.size() + 1;
                    bool kept = lookup ? b.num_lookup_gates() == m.lookups.size() : b.num_gates() == m.gates.size();
                    if (hit == known[cls].end() && other != known[1 - cls].end() && kept && sel == other->second)
                        hit = known[cls].emplace(key, sel).first;    // shared across forms, allowed
                    if (hit != known[cls].end()) {
                        repeats++;
                        c.probe("repeat-request");
                        c.probe("repeat-in-other-order", perm != 0 && names.size() > 1);
                        c.probe("repeat-in-other-writing", variant != 0);
                        c.require(sel == hit->second && kept, "equal-gate-not-shared",
                                  "a repeated request got selector " + std::to_string(sel) + ", the gate is on " +
                                      std::to_string(hit->second));
                    } else {
                        fresh++;
                        c.probe("near-miss-request", !m.gates.empty());
                        c.require(sel == m.next, "different-gate-shared",
                                  "a new gate got selector " + std::to_string(sel) + " instead of the fresh one " + std::to_string(m.next));
                        c.require(grown, "gate-not-added", "a new gate was not added to the circuit");
                        known[cls][key] = sel;
                        (lookup ? m.lookups : m.gates).push_back({sel, meanings});
                        m.next++;
                    }
                    c.event(std::string(lookup ? "l" : "g") + std::to_string(w) + " " + written + " -> " + std::to_string(sel));
                } else if (st.op == "reserve") {
                    std::size_t sel = b.get_dynamic_lookup_table_selector();
                    c.require(sel == m.next, "selector-reused", "a reserved selector was not fresh");
                    m.next++;
                    c.probe("gate-after-reserved-selector");
                    c.event("reserve " + std::to_string(w));
                } else if (st.op == "attach") {
                    if (m.next == 0)
                        continue;
                    std::size_t sel = u64(st.arg(1)) % m.next;
                    poly p = make_poly(u64(st.arg(2)), cols);
                    std::vector<constraint> v = {make_constraint(p, 0)};
                    c.require(b.add_gate(sel, v) == sel, "attach-moved", "a gate attached to a selector got another one");
                    m.gates.push_back({sel, {meaning(p)}});
                    c.event("attach " + std::to_string(w));
                } else {
                    continue;
                }
                c.require(b.get_next_selector_index() == m.next, "selector-count",
                          "next selector is " + std::to_string(b.get_next_selector_index()) + " instead of " + std::to_string(m.next));
                c.require(b.num_gates() == m.gates.size() && b.num_lookup_gates() == m.lookups.size(), "gate-count",
                          "the circuit does not have as many gates as were requested");
                u64 h = mix(m.gates.size(), m.next);
                for (auto &x : m.gates)
                    h = fnv(x.key(), mix(h, x.selector));
                for (auto &x : m.lookups)
                    h = fnv(x.key(), mix(h, x.selector));
                c.state(h);
            }
            for (std::size_t w = 0; w < n; w++) {
                std::string d = diff(gates_of(circuits[w].gates()), models[w].gates);
                c.require(d.empty(), "gates-differ", "gate list " + d);
                d = diff(lookup_gates_of(circuits[w].lookup_gates()), models[w].lookups);
                c.require(d.empty(), "lookup-gates-differ", "lookup gate list " + d);
            }
            c.fault("zero-draw", zeros_delivered);
            c.event("draws " + std::to_string(nil::crypto3::random::draws_made));
            c.nontrivial = repeats && fresh;
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C02 h;
    return sim::main(h, argc, argv);
}
