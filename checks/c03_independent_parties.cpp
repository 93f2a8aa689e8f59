// C03: parties that run the same building program in separate processes get the same circuit, table and exported bytes.
#define VERIF_ALL_COMPONENTS
#include <sys/wait.h>
#include <unistd.h>

#include "../sim/sim.hpp"
#include "../sim/build_script.hpp"
#include "../sim/component_kit.hpp"

#include <nil/blueprint/utils/satisfiability_check.hpp>

using namespace sim;
using namespace kit;

namespace {
    u64 zero_from = 0, zero_count = 0;
    bool zero_hook(std::uint64_t n) { return n >= zero_from && n < zero_from + zero_count; }

    const i64 component_row = 64;    // single-cell operations stay above this row

    struct party {
        u64 entropy = 1, memory = 0, warm = 0, heap = 0, zeros = 0;
        int mode = 0;    // 0 circuit pass first, 1 assignment pass first, 2 circuit pass only
    };

    struct builder {
        world w;
        party p;
        bool cells_only = false;    // no operation whose meaning depends on what the assignment pass has written
        struct entry {
            var v;
            value x;
        };
        std::vector<entry> pool;
        std::size_t next_public = component_row, next_row = component_row;
        std::size_t batched = 0, constants = 0, components = 0;
        std::ostringstream log;

        builder(std::size_t n, std::size_t width, const party &p_) : w(n, width, 1, 2, 300), p(p_) {}

        std::size_t add_public(const value &x) {
            w.tab->public_input(0, next_public) = x;
            pool.push_back({absolute(1, 0, next_public++), x});
            return pool.size() - 1;
        }
        void place(const Step &st) {
            unsigned which = unsigned(u64(st.arg(1)) % comp::ALL_KINDS);
            comp::kind k = comp::any_kind(which, u64(st.arg(2)), w.tab->witnesses_amount());
            if (k.widths.empty())
                return;
            std::size_t width = k.widths[u64(st.arg(3)) % k.widths.size()];
            Rng g(u64(st.arg(4)) * 31 + which);
            comp::values xs;
            std::vector<std::size_t> in;
            std::size_t base = pool.size();
            for (int attempt = 0; attempt < 8; attempt++) {
                xs.clear();
                in.clear();
                for (std::size_t j = 0; j < k.inputs; j++) {
                    bool old = base && attempt < 6 && g.chance(1, 2);
                    in.push_back(old ? base - 1 - g.below(std::min<u64>(base, 20)) : ~std::size_t(0));
                    xs.push_back(old ? pool[in.back()].x : k.want(j, g));
                }
                if (k.fits(xs))
                    break;
            }
            if (!k.fits(xs))
                return;
            comp::vars iv;
            for (std::size_t j = 0; j < in.size(); j++) {
                if (in[j] == ~std::size_t(0))
                    in[j] = add_public(xs[j]);
                iv.push_back(pool[in[j]].v);
            }
            std::size_t off = u64(st.arg(5)) % (w.tab->witnesses_amount() - width + 1);
            std::vector<std::size_t> cols;
            for (std::size_t i = 0; i < width; i++)
                cols.push_back(off + i);
            comp::placed c = k.make(cols, iv);
            std::size_t row = next_row;
            next_row += c->rows();
            std::size_t a = w.actor(st);
            for (auto &t : k.tables)
                w.circuit_of(a).reserve_table(t);
            comp::vars out;
            if (p.mode == 1)
                c->assign(w.table_of(a), std::uint32_t(row));
            out = c->circuit(w.circuit_of(a), w.table_of(a), std::uint32_t(row));
            if (p.mode == 0)
                c->assign(w.table_of(a), std::uint32_t(row));
            comp::values ys = k.result(xs);
            components++;
            log << k.name << " row " << row;
            for (std::size_t i = 0; i < out.size() && i < ys.size(); i++) {
                log << " " << text(out[i]);
                pool.push_back({out[i], ys[i]});
            }
            log << "\n";
        }
        template<typename K>
        var request(table_t &t, const var &x, const var &y) {
            typename K::input_type i {x, y};
            comp::vars v;
            if (p.mode == 1)
                v = comp::flatten(t.template add_input_to_batch_assignment<K>(i));
            comp::vars u = comp::flatten(t.template add_input_to_batch_circuit<K>(i));
            if (p.mode == 0)
                v = comp::flatten(t.template add_input_to_batch_assignment<K>(i));
            return u[0];
        }
        void batch(const Step &st) {
            if (cells_only)
                return;
            while (pool.size() < 2)
                add_public(make_value(u64(st.arg(2)) + pool.size()));
            // through the shared table: batches of views are finished separately
            table_t &t = *w.tab;
            const entry x = pool[pool.size() - 1 - u64(st.arg(2)) % pool.size()], y = pool[pool.size() - 1 - u64(st.arg(3)) % pool.size()];
            entry r;
            switch (u64(st.arg(1)) % 4) {
                case 0:
                    r = {request<comp::mul_t>(t, x.v, y.v), x.x * y.x};
                    break;
                case 1:
                    r = {request<comp::add_t>(t, x.v, y.v), x.x + y.x};
                    break;
                case 2:
                    r = {request<comp::sub_t>(t, x.v, y.v), x.x - y.x};
                    break;
                default:
                    r = {request<comp::divz_t>(t, x.v, y.v), y.x.is_zero() ? value::zero() : value(x.x / y.x)};
            }
            batched++;
            pool.push_back(r);
            log << "batched " << text(r.v) << "\n";
        }
        void step(const Step &st) {
            try {
                if (st.op == "place")
                    place(st);
                else if (st.op == "request")
                    batch(st);
                else if (cells_only && (st.op.compare(0, 5, "share") == 0 || st.op.compare(0, 5, "batch") == 0))
                    return;
                else {
                    constants += st.op == "batch_constant";
                    log << st.op << " " << w.apply(st) << "\n";
                }
            } catch (const std::exception &e) {
                log << st.op << " threw\n";
            }
        }
        // the finished circuit; with the table unless only the circuit is compared
        std::string finish(bool circuit_only, bool constants_last) {
            std::ostringstream o;
            try {
                if (batched)
                    o << "finished at " << w.tab->finalize_component_batches(*w.bp, next_row) << "\n";
                if (constants && constants_last)
                    w.tab->finalize_constant_batches(*w.bp, 1, next_row);
            } catch (const std::exception &e) {
                o << "finishing threw\n";
            }
            if (!circuit_only)
                o << w.dump();
            else {
                const circuit_t &b = *w.bp;
                for (auto &g : b.gates()) {
                    o << "gate " << g.selector_index << ":";
                    for (auto &c : g.constraints)
                        o << " " << meaning(c);
                    o << "\n";
                }
                for (auto &c : b.copy_constraints())
                    o << "copy " << text(c.first) << " " << text(c.second) << "\n";
                for (std::size_t i = 0; i < w.tab->selectors_amount(); i++)
                    for (std::size_t j = 0; j < w.tab->selector_column_size(i); j++)
                        if (!w.tab->selector(i, j).is_zero())
                            o << "selector " << i << " row " << j << "\n";
                for (std::size_t i = 0; i < w.tab->constants_amount(); i++)
                    for (std::size_t j = 0; j < w.tab->constant_column_size(i); j++)
                        if (!w.tab->constant(i, j).is_zero())
                            o << "constant " << i << " row " << j << " " << text(w.tab->constant(i, j)) << "\n";
            }
            try {
                o << w.close_and_dump_tables();
            } catch (const std::exception &e) {
                o << "tables threw\n";
            }
            o << log.str();
            if (!circuit_only)
                o << w.exports();
            else {
                cout_catcher quiet;
                w.bp->export_circuit(o);
                for (auto &v : w.cv)
                    v.export_circuit(o);
            }
            return o.str();
        }
    };

    class C03 : public Harness {
    public:
        const char *property() const override { return "C03"; }
        const char *rule() const override {
            return "one building program (cell and gate operations by 1-3 provers, component placements, batched components, lookup reservations) "
                   "run by 2-4 parties, each its own process with its own entropy, heap contents, warm-up work and order of passes; "
                   "non-trivial: two parties differ in entropy or warm-up and at least two gates were requested";
        }
        const char *state_measure() const override { return "finished circuits and tables (hash of everything a party exports)"; }
        std::vector<std::string> real_components() const override {
            return {"circuit.hpp", "circuit_proxy.hpp", "assignment.hpp", "assignment_proxy.hpp", "gate_id.hpp", "lookup_library.hpp",
                    "component_batch.hpp", "31 kinds of component"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions and plonk table base class (stand-in)", "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"parties run the same binary", "a party that builds only the circuit requests no batched results"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"other-entropy", "zero-draws", "other-memory-contents", "heap-disturbed", "other-circuit-built-before",
                    "assignment-first", "circuit-only"};
        }
        std::vector<std::string> probe_names() const override {
            return {"components-placed", "batches-finished", "constants-finished", "tables-filled", "equal-gates-merged"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 200000 : 5000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            i64 n = g.range(1, 3);
            s.cfg["provers"] = n;
            s.cfg["width"] = g.range(10, 20);
            s.cfg["circuit_only"] = g.chance(1, 3);
            s.cfg["constants_last"] = g.chance(1, 2);
            bool with_components = g.chance(2, 3);
            i64 parties = g.range(2, 4);
            for (i64 i = 0; i < parties; i++)
                s.add("party", {i64(g.below(1000000)), i64(g.below(256)), g.chance(1, 2) ? i64(g.range(1, 100000)) : 0,
                                g.chance(1, 2) ? i64(g.range(1, 100000)) : 0, i64(g.below(3)), g.chance(1, 5) ? i64(g.range(1, 300)) : 0});
            std::vector<unsigned> w = op_weights(g);
            if (with_components)
                w[15] = w[21] = 0;    // whole columns and column amounts belong to the components then
            else
                w[21] = 0;
            u64 base = g.below(40), fam = g.range(1, 3), steps = g.range(4, g.chance(1, 4) ? 60 : 20);
            bool requests = g.chance(1, 2);
            for (u64 i = 0; i < steps; i++) {
                i64 actor = g.below(u64(n) + 1);
                if (with_components && g.chance(1, 3))
                    s.add("place", {actor, i64(g.below(comp::ALL_KINDS)), i64(g.below(200)), i64(g.below(100)), i64(g.below(10000)), i64(g.below(12))});
                else if (with_components && requests && g.chance(1, 3))
                    s.add("request", {actor, i64(g.below(4)), i64(g.below(10)), i64(g.below(10))});
                else
                    s.steps.push_back(random_op(g, actor, base, fam, 12, w));
            }
            return s;
        }

        static void disturb_heap(u64 seed) {
            Rng g(seed);
            std::vector<char *> blocks;
            for (u64 i = 0, m = g.range(10, 400); i < m; i++)
                blocks.push_back(new char[g.range(8, 600)]);
            for (auto &b : blocks)
                if (g.chance(1, 2)) {
                    delete[] b;
                    b = nullptr;
                }
        }
        // an unrelated circuit in the same process, kept alive
        static void warm_up(u64 seed) {
            Rng g(seed);
            party p;
            builder *b = new builder(1 + g.below(2), 15, p);
            std::vector<unsigned> w = op_weights(g);
            w[15] = w[21] = 0;
            u64 base = g.below(40);
            for (u64 i = 0, m = g.range(1, 8); i < m; i++) {
                if (g.chance(1, 2))
                    b->step({"place", {0, i64(g.below(comp::ALL_KINDS)), i64(g.below(200)), i64(g.below(100)), i64(g.below(10000)), 0}});
                else if (g.chance(1, 4))
                    b->step({"request", {0, i64(g.below(4)), i64(g.below(10)), i64(g.below(10))}});
                else
                    b->step(random_op(g, i64(g.below(2)), base, 2, 12, w));
            }
            if (g.chance(1, 2))
                b->finish(false, false);
        }

        struct result {
            std::string all;
            std::size_t components = 0, batched = 0, constants = 0, gates = 0, requested = 0;
        };

        static std::string run_party(const Scenario &s, const party &p, bool circuit_only) {
            entropy::seed(p.entropy);
            zero_from = p.zeros;
            zero_count = p.zeros ? 3 : 0;
            nil::crypto3::random::zero_draw_hook = zero_hook;
            alloc::fill((unsigned char) p.memory);
            if (p.heap)
                disturb_heap(p.heap);
            if (p.warm)
                warm_up(p.warm);
            builder b(1 + u64(s.get("provers") - 1) % 3, 10 + u64(s.get("width") - 10) % 11, p);
            b.cells_only = circuit_only;
            std::size_t requested = 0;
            for (auto &st : s.steps)
                if (st.op != "party") {
                    requested += st.op == "gate" || st.op == "gate1" || st.op == "lookup" || st.op == "lookup1" || st.op == "place";
                    b.step(st);
                }
            std::string all = b.finish(circuit_only, s.get("constants_last") != 0);
            const circuit_t &bp = *b.w.bp;
            return std::to_string(b.components) + " " + std::to_string(b.batched) + " " + std::to_string(b.constants) + " " +
                   std::to_string(bp.num_gates() + bp.num_lookup_gates()) + " " + std::to_string(requested) + "\n" + all;
        }

        // in a process of its own
        static result ask(const Scenario &s, const party &p, bool circuit_only) {
            int fd[2];
            if (pipe(fd) != 0)
                throw std::runtime_error("pipe failed");
            pid_t pid = fork();
            if (pid < 0)
                throw std::runtime_error("fork failed");
            if (pid == 0) {
                close(fd[0]);
                std::string t;
                int code = 0;
                try {
                    t = run_party(s, p, circuit_only);
                } catch (const std::exception &e) {
                    t = e.what();
                    code = 3;
                }
                for (std::size_t done = 0; done < t.size();) {
                    ssize_t k = write(fd[1], t.data() + done, t.size() - done);
                    if (k <= 0)
                        break;
                    done += std::size_t(k);
                }
                _exit(code);
            }
            close(fd[1]);
            result r;
            char buf[65536];
            for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) != 0;) {
                if (k < 0 && errno == EINTR)
                    continue;
                if (k < 0)
                    break;
                r.all.append(buf, std::size_t(k));
            }
            close(fd[0]);
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
            }
            if (WIFSIGNALED(st))
                throw Violation {WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM ? "no-progress" : "crash",
                                 "a party was killed by signal " + std::to_string(WTERMSIG(st))};
            if (WEXITSTATUS(st))
                throw Violation {"unexpected-exception", "a party ended with: " + r.all.substr(0, 200)};
            std::istringstream in(r.all);
            in >> r.components >> r.batched >> r.constants >> r.gates >> r.requested;
            return r;
        }

        void execute(const Scenario &s, Ctx &c) override {
            bool circuit_only = s.get("circuit_only") != 0;
            std::vector<party> parties;
            for (auto &st : s.steps)
                if (st.op == "party" && parties.size() < 4) {
                    party p;
                    p.entropy = u64(st.arg(0));
                    p.memory = u64(st.arg(1));
                    p.warm = u64(st.arg(2));
                    p.heap = u64(st.arg(3));
                    p.zeros = u64(st.arg(5)) % 1000;
                    p.mode = int(u64(st.arg(4)) % (circuit_only ? 3 : 2));
                    parties.push_back(p);
                }
            while (parties.size() < 2)
                parties.push_back(party());
            parties[0].warm = parties[0].heap = 0;
            parties[0].mode = 0;
            result first;
            for (std::size_t i = 0; i < parties.size(); i++) {
                const party &p = parties[i];
                result r = ask(s, p, circuit_only);
                c.sim_steps += s.steps.size();
                c.event("party " + std::to_string(i) + " " + std::to_string(fnv(r.all)));
                if (!i) {
                    first = r;
                    c.state(fnv(r.all));
                    c.probe("components-placed", r.components);
                    c.probe("batches-finished", r.batched > 0);
                    c.probe("constants-finished", r.constants > 0 && s.get("constants_last"));
                    c.probe("tables-filled", r.all.find("\nfilled ") != std::string::npos);
                    c.probe("equal-gates-merged", r.requested > r.gates);
                    continue;
                }
                c.fault("other-entropy", p.entropy != parties[0].entropy);
                c.fault("zero-draws", p.zeros != 0);
                c.fault("other-memory-contents", p.memory != parties[0].memory);
                c.fault("heap-disturbed", p.heap != 0);
                c.fault("other-circuit-built-before", p.warm != 0);
                c.fault("assignment-first", p.mode == 1);
                c.fault("circuit-only", p.mode == 2);
                c.nontrivial = c.nontrivial || (first.gates >= 2 && (p.warm || p.entropy != parties[0].entropy));
                c.require(r.all == first.all, "parties-differ",
                          "party " + std::to_string(i) + " built something else: " + first_difference(first.all, r.all));
            }
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C03 h;
    return sim::main(h, argc, argv);
}
