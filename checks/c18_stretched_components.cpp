// C18: a component stretched over several times its columns computes the same, wherever, however often and in whatever order it is placed.
// build: -D_GLIBCXX_ASSERTIONS
#include "component_kit.hpp"
#include "component_kit2.hpp"

#include <nil/blueprint/component_stretcher.hpp>
#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

using namespace sim;
using namespace kit;

namespace nil {
    namespace blueprint {
        namespace components {
            // blocks of one to three rows, each computing one value from two others; blocks of one type share a gate
            struct patchwork {
                enum block_type : unsigned { HERE, NEXT, AROUND, SCALED, FIXED, PREVIOUS, AHEAD, BEHIND, TYPES };
                struct source {
                    enum { INPUT, BLOCK, CONSTANT, OWN } from;    // OWN: the constant the gate reads
                    std::size_t index;
                    value x;
                };
                struct block {
                    block_type type;
                    unsigned extra;
                    source a, b;
                    value constant;
                    std::size_t row;
                };
                struct input_type {
                    std::vector<var> in;
                    std::vector<std::reference_wrapper<var>> all_vars() { return std::vector<std::reference_wrapper<var>>(in.begin(), in.end()); }
                };
                struct result_type {
                    std::vector<var> out;
                    std::vector<std::reference_wrapper<var>> all_vars() { return std::vector<std::reference_wrapper<var>>(out.begin(), out.end()); }
                };

                std::size_t width = 3, inputs = 0, rows_amount = 0;
                std::vector<block> blocks;
                std::vector<std::size_t> outputs;

                static std::size_t height(block_type t) { return t == AROUND ? 3 : t == NEXT || t == PREVIOUS || t == AHEAD || t == BEHIND ? 2 : 1; }
                // where the operands and the value of a block are, counted from its first row
                static bool scaled(block_type t) { return t == SCALED || t == AHEAD || t == BEHIND; }    // its gate reads a constant
                static std::size_t a_row(block_type t) { return t == AHEAD ? 1 : 0; }
                static std::size_t b_row(block_type t) { return t == AROUND || t == AHEAD ? 1 : 0; }
                static std::size_t out_row(block_type t) { return t == BEHIND ? 0 : height(t) - 1; }
                static std::size_t gate_row(block_type t) { return t == AROUND || t == PREVIOUS || t == BEHIND ? 1 : 0; }

                explicit patchwork(u64 seed) {
                    Rng g(seed * 31 + 7);
                    width = std::size_t(g.range(3, 5));
                    inputs = std::size_t(g.range(1, 4));
                    std::size_t n = std::size_t(g.range(1, g.chance(1, 8) ? 30 : 9));
                    bool many_constants = g.chance(1, 3);
                    unsigned few = unsigned(g.range(1, TYPES));
                    for (std::size_t i = 0; i < n; i++) {
                        block k;
                        k.type = block_type((g.below(few) + seed) % TYPES);
                        k.extra = unsigned(g.below(g.chance(1, 2) ? 1 : 4));
                        auto pick = [&](bool may_be_constant) {
                            source s {source::INPUT, g.below(inputs), value(0)};
                            if (i && g.chance(1, 2)) {
                                s.from = source::BLOCK;
                                s.index = g.below(i);
                            } else if (may_be_constant && (many_constants || g.chance(1, 3))) {
                                s.from = source::CONSTANT;
                                s.x = value(g.below(1000) + 2);
                            }
                            return s;
                        };
                        k.a = pick(!scaled(k.type));
                        k.b = pick(b_row(k.type) != a_row(k.type) || (!scaled(k.type) && k.a.from != source::CONSTANT));
                        if (k.type == FIXED)
                            k.a = {source::CONSTANT, 0, value(g.below(1000) + 2)};
                        k.constant = value(g.below(1000) + 2);
                        if (scaled(k.type) && g.chance(1, 4))
                            k.a = {source::OWN, 0, k.constant};
                        k.row = rows_amount;
                        rows_amount += height(k.type);
                        blocks.push_back(k);
                        if (g.chance(1, 2))
                            outputs.push_back(i);
                    }
                    outputs.push_back(n - 1);
                }
                std::size_t W(std::size_t i) const { return i; }

                std::vector<value> values_of(const std::vector<value> &in) const {
                    std::vector<value> v;
                    for (auto &k : blocks) {
                        auto get = [&](const source &s) { return s.from == source::INPUT ? in[s.index] : s.from == source::BLOCK ? v[s.index] : s.x; };
                        value a = get(k.a), b = get(k.b);
                        switch (k.type) {
                            case HERE: v.push_back((a + value(k.extra)) * (b - value(2 * k.extra)) - a); break;
                            case NEXT: v.push_back(a + value(2 + k.extra) * b * a); break;
                            case AROUND: v.push_back((a + value(k.extra)).pow(3) + b); break;
                            case AHEAD:
                            case BEHIND:
                            case SCALED: v.push_back(a + b * k.constant + value(k.extra)); break;
                            case FIXED: v.push_back(a); break;
                            default: v.push_back(a - b + value(1 + k.extra)); break;
                        }
                    }
                    return v;
                }
                var out(std::size_t i, std::size_t row) const {
                    auto &k = blocks[i];
                    return k.type == FIXED ? var(W(0), row + k.row, false) : var(W(2), row + k.row + out_row(k.type), false);
                }
                result_type result(std::size_t row) const {
                    result_type r;
                    for (auto i : outputs)
                        r.out.push_back(out(i, row));
                    return r;
                }
            };

            template<typename BlueprintFieldType>
            patchwork::result_type generate_circuit(const patchwork &p, circuit<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &bp,
                                                    assignment<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &t,
                                                    const patchwork::input_type &in, const std::uint32_t row) {
                typedef patchwork P;
                for (auto &k : p.blocks) {
                    var a(p.W(0), 0, true), b(p.W(1), 0, true), o(p.W(2), 0, true), d(0, 0, true, var::column_type::constant);
                    std::vector<constraint> q;
                    switch (k.type) {
                        case P::HERE: q = {constraint((a + value(k.extra)) * (b - value(2 * k.extra)) - a - o)}; break;
                        case P::NEXT: q = {constraint(a + value(2 + k.extra) * b * a - var(p.W(2), 1, true))}; break;
                        case P::AROUND: q = {constraint((var(p.W(0), -1, true) + value(k.extra)).pow(3) + b - var(p.W(2), 1, true))}; break;
                        case P::SCALED: q = {constraint(a + b * d + value(k.extra) - o)}; break;
                        case P::AHEAD:
                        case P::BEHIND: {
                            int there = k.type == P::AHEAD ? 1 : -1;
                            q = {constraint(var(p.W(0), there, true) + var(p.W(1), there, true) * var(0, there, true, var::column_type::constant) + value(k.extra) -
                                            var(p.W(2), there, true))};
                            break;
                        }
                        case P::FIXED: break;
                        default: q = {constraint(var(p.W(0), -1, true) - var(p.W(1), -1, true) + value(1 + k.extra) - o)}; break;
                    }
                    std::size_t r = row + k.row;
                    if (!q.empty())
                        t.enable_selector(bp.add_gate(q), r + P::gate_row(k.type));
                    auto tie = [&](std::size_t column, std::size_t at, const P::source &s) {
                        var own(column, at, false);
                        switch (s.from) {
                            case P::source::INPUT: bp.add_copy_constraint({own, in.in[s.index]}); break;
                            case P::source::BLOCK: bp.add_copy_constraint({own, p.out(s.index, row)}); break;
                            default:    // a constant
                                t.constant(0, at) = s.x;
                                bp.add_copy_constraint({var(0, at, false, var::column_type::constant), own});
                        }
                    };
                    tie(p.W(0), r + P::a_row(k.type), k.a);
                    if (P::scaled(k.type))
                        t.constant(0, r + P::a_row(k.type)) = k.constant;
                    if (k.type != P::FIXED)
                        tie(p.W(1), r + P::b_row(k.type), k.b);
                }
                return p.result(row);
            }

            template<typename BlueprintFieldType>
            patchwork::result_type generate_assignments(const patchwork &p, assignment<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &t,
                                                        const patchwork::input_type &in, const std::uint32_t row) {
                typedef patchwork P;
                std::vector<value> x;
                for (auto &v : in.in)
                    x.push_back(var_value(t, v));
                auto v = p.values_of(x);
                for (std::size_t i = 0; i < p.blocks.size(); i++) {
                    auto &k = p.blocks[i];
                    auto get = [&](const P::source &s) { return s.from == P::source::INPUT ? x[s.index] : s.from == P::source::BLOCK ? v[s.index] : s.x; };
                    std::size_t r = row + k.row;
                    for (std::size_t h = 0; h < P::height(k.type); h++)
                        for (std::size_t w = 0; w < p.width; w++)
                            t.witness(p.W(w), r + h) = value::zero();
                    t.witness(p.W(0), r + P::a_row(k.type)) = get(k.a);
                    if (k.type != P::FIXED) {
                        t.witness(p.W(1), r + P::b_row(k.type)) = get(k.b);
                        t.witness(p.W(2), r + P::out_row(k.type)) = v[i];
                    }
                }
                return p.result(row);
            }

            template<>
            class input_type_converter<patchwork> {
            public:
                static patchwork::input_type convert(const patchwork::input_type &in, table_t &from, table_t &to) {
                    patchwork::input_type r;
                    for (std::size_t i = 0; i < in.in.size(); i++) {
                        to.public_input(0, i) = var_value(from, in.in[i]);
                        r.in.push_back(var(0, i, false, var::column_type::public_input));
                    }
                    return r;
                }
                static var deconvert_var(const patchwork::input_type &in, var v) { return in.in.at(std::size_t(v.rotation)); }
            };

            template<>
            class result_type_converter<patchwork> {
            public:
                static patchwork::result_type convert(const component_stretcher<field, patchwork> &c, const patchwork::result_type &old,
                                                      const patchwork::input_type &in, std::size_t row) {
                    patchwork::result_type r;
                    for (auto &v : old.out)
                        r.out.push_back(c.move_var(v, std::int32_t(row + c.line_mapping[v.rotation]), in));
                    return r;
                }
            };
        }    // namespace components
    }        // namespace blueprint
}    // namespace nil

namespace {
    namespace bc = nil::blueprint::components;
    typedef nil::blueprint::circuit_proxy<arith> circuit_view;
    typedef nil::blueprint::assignment_proxy<arith> table_view;
    typedef comp::values values;
    typedef comp::vars vars;

    struct unit {
        std::string name;
        std::size_t inputs = 0, width = 0;
        std::vector<std::size_t> bundle;    // inputs that must come from one result: size of each
        std::function<bool(const values &)> fits;
        std::function<values(const values &)> result;
        std::function<bool(const values &, const values &)> differs;    // would a trace for the one be noticed for the other
        std::function<values(Rng &)> want;
        virtual ~unit() {}
        virtual vars circuit(circuit_t &, table_t &, const vars &, std::uint32_t row) = 0;
        virtual vars assign(table_t &, const vars &, std::uint32_t row) = 0;
        virtual std::size_t rows() const = 0;
        virtual std::size_t plain_rows() const = 0;
    };

    template<typename C>
    struct unit_of : unit {
        C component;
        bc::component_stretcher<field, C> stretched;
        std::function<typename C::input_type(const vars &)> bind;
        unit_of(C c, std::size_t old_width, std::size_t new_width) : component(std::move(c)), stretched(component, old_width, new_width) { width = new_width; }
        static vars all(typename C::result_type r) {
            vars v;
            for (auto &x : r.all_vars())
                v.push_back(x.get());
            return v;
        }
        vars circuit(circuit_t &bp, table_t &t, const vars &in, std::uint32_t row) override {
            return all(bc::generate_circuit(stretched, bp, t, bind(in), row));
        }
        vars assign(table_t &t, const vars &in, std::uint32_t row) override { return all(bc::generate_assignments(stretched, t, bind(in), row)); }
        std::size_t rows() const override { return stretched.rows_amount; }
        std::size_t plain_rows() const override { return component.rows_amount; }
    };

    enum : unsigned { PATCHWORK, PRODUCT, SUM_OF_POINTS, DOUBLE_POINT, UNITS };

    std::shared_ptr<unit> make_unit(unsigned which, u64 param, std::size_t factor, std::size_t spare) {
        typedef bc::multiplication<arith, comp::foreign, comp::policy> product;
        typedef bc::complete_addition<arith, nil::crypto3::algebra::curves::pallas, nil::crypto3::algebra::curves::ed25519, comp::policy> sum;
        typedef bc::doubling<arith, nil::crypto3::algebra::curves::pallas, nil::crypto3::algebra::curves::ed25519, comp::policy> twice;
        const std::vector<std::size_t> columns = {0, 1, 2, 3, 4, 5, 6, 7, 8}, none, first = {0};
        auto take = [](unit &u, unsigned kind) {
            comp::kind k = comp::heavy_kind(kind, 0, 9);
            u.name = k.name;
            u.inputs = k.inputs;
            for (auto &b : k.in)
                u.bundle.push_back(b.size);
            u.fits = k.fits;
            u.result = k.result;
            u.want = k.want_all;
            u.differs = [](const values &a, const values &b) { return a != b; };
        };
        switch (which) {
            case PRODUCT: {
                auto u = std::make_shared<unit_of<product>>(product(columns, none, none), 9, 9 * factor + spare % 9);
                take(*u, comp::FOREIGN_MUL);
                u->bind = [](const vars &in) {
                    product::input_type i;
                    i.A = {in[0], in[1], in[2], in[3]};
                    i.B = {in[4], in[5], in[6], in[7]};
                    return i;
                };
                return u;
            }
            case SUM_OF_POINTS: {
                auto u = std::make_shared<unit_of<sum>>(sum(columns, first, none), 9, 9 * factor + spare % 9);
                take(*u, comp::EDWARDS_ADD);
                u->bind = [](const vars &in) {
                    sum::input_type i;
                    i.T.x = {in[0], in[1], in[2], in[3]};
                    i.T.y = {in[4], in[5], in[6], in[7]};
                    i.R.x = {in[8], in[9], in[10], in[11]};
                    i.R.y = {in[12], in[13], in[14], in[15]};
                    return i;
                };
                return u;
            }
            case DOUBLE_POINT: {
                auto u = std::make_shared<unit_of<twice>>(twice(columns, none, none), 9, 9 * factor + spare % 9);
                take(*u, comp::EDWARDS_DOUBLE);
                u->bind = [](const vars &in) {
                    twice::input_type i;
                    i.T.x = {in[0], in[1], in[2], in[3]};
                    i.T.y = {in[4], in[5], in[6], in[7]};
                    return i;
                };
                return u;
            }
            default: {
                bc::patchwork p(param);
                auto u = std::make_shared<unit_of<bc::patchwork>>(p, p.width, p.width * factor + spare % p.width);
                u->name = "patchwork " + std::to_string(param);
                u->inputs = p.inputs;
                u->bundle.assign(p.inputs, 1);
                u->fits = [](const values &) { return true; };
                u->result = [p](const values &in) {
                    auto v = p.values_of(in);
                    values r;
                    for (auto i : p.outputs)
                        r.push_back(v[i]);
                    return r;
                };
                u->differs = [p](const values &a, const values &b) { return p.values_of(a) != p.values_of(b); };
                u->want = [n = p.inputs](Rng &g) {
                    values v;
                    for (std::size_t i = 0; i < n; i++)
                        v.push_back(make_value(g.next() >> 20));
                    return v;
                };
                u->bind = [](const vars &in) { return bc::patchwork::input_type {in}; };
                return u;
            }
        }
    }

    struct C18 : Harness {
        const char *property() const override { return "C18"; }
        const char *rule() const override {
            return "1..10 placements of stretched components (patchworks of gated blocks with drawn structure, foreign-field multiplication, "
                   "Edwards addition and doubling) by factors 1..5 on one circuit and table or views of them, inputs fresh or results of earlier "
                   "placements, the same stretcher used again or a new one, circuit or assignment pass first, passes of neighbours interleaved; "
                   "then outputs changed alone and with their copies and whole traces for other inputs put in place; non-trivial: a factor of at "
                   "least two; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (component, factor, inputs, order) sequence so far"; }
        std::vector<std::string> real_components() const override {
            return {"component_stretcher.hpp", "utils/gate_mover.hpp", "detail/huang_lu.hpp", "circuit.hpp", "assignment.hpp", "circuit_proxy.hpp",
                    "assignment_proxy.hpp", "input and result converters of multiplication, Edwards addition and doubling", "satisfiability_check.hpp"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, curve groups, expressions and plonk table base class (stand-in)", "patchwork components (harness)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"inputs are known before either pass, as the stretcher reads them in both",
                    "the component stands on columns 0 and up and uses constant column 0, as the stretcher's comments say"};
        }
        std::vector<std::string> fault_kinds() const override {
            return {"passes-interleaved", "assignment-first", "output-corrupted", "value-changed-everywhere", "trace-for-other-inputs"};
        }
        std::vector<std::string> probe_names() const override {
            return {"stretched", "stretcher-used-again", "chained", "fewer-rows", "views", "patchwork", "foreign", "curve"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 100000 : 10000; }

        Scenario generate(Rng &g, u64) override {
            Scenario s;
            s.cfg["memfill"] = g.below(256);
            s.cfg["views"] = g.chance(1, 3);
            s.cfg["start"] = g.chance(1, 3) ? 0 : g.range(1, 20);
            s.cfg["corrupt"] = g.below(100000);
            bool heavy = g.chance(1, 4);
            u64 n = g.range(1, heavy ? 4 : 10), pool = g.range(1, 4), base = g.below(100000);
            for (u64 i = 0; i < n; i++)
                s.add("place", {heavy && g.chance(2, 3) ? g.range(1, UNITS - 1) : 0, i64(base + g.below(pool)), g.range(1, 5), i64(g.below(9)), i64(g.below(1000000)),
                                i64(g.below(4)), g.chance(1, 2)});
            return s;
        }

        struct placement {
            std::shared_ptr<unit> u;
            std::vector<std::size_t> in, out;
            std::size_t row;
            std::string name;
        };

        void execute(const Scenario &s, Ctx &c) override {
            cout_catcher quiet;
            const std::size_t W = 56;
            auto bp = std::make_shared<circuit_t>();
            auto tab = std::make_shared<table_t>(W, 1, 1, 300);
            circuit_view cv(bp, 0);
            table_view tv(tab, 0);
            bool views = s.get("views") != 0;
            c.probe("views", views);
            circuit_t &C = views ? static_cast<circuit_t &>(cv) : *bp;
            table_t &T = views ? static_cast<table_t &>(tv) : *tab;
            const table_t &look = *tab;

            struct entry {
                var v;
                value x;
            };
            std::vector<entry> pool;
            std::map<std::size_t, std::vector<std::size_t>> bundles;    // size of bundle -> where such a one starts
            std::size_t next_public = 0;
            auto add_public = [&](const value &x) {
                tab->public_input(0, std::uint32_t(next_public)) = x;
                pool.push_back({absolute(1, 0, next_public++), x});
                return pool.size() - 1;
            };
            std::vector<placement> all;
            std::map<std::tuple<unsigned, u64, std::size_t, std::size_t>, std::shared_ptr<unit>> known;
            std::size_t row = u64(s.get("start")) % 64;
            // one column of the table as it is, without growing it
            auto column = [&](int kind, std::size_t i) -> const auto & {
                return kind == 0 ? look.witness(std::uint32_t(i)) : kind == 1 ? look.constant(std::uint32_t(i)) : look.selector(std::uint32_t(i));
            };
            auto counts = [&](int kind) { return kind == 0 ? W : kind == 1 ? std::size_t(1) : bp->gates().size(); };
            typedef std::vector<std::vector<value>> snapshot;
            auto photograph = [&] {
                snapshot p;
                for (int kind = 0; kind < 3; kind++)
                    for (std::size_t i = 0; i < counts(kind); i++)
                        p.emplace_back(column(kind, i).begin(), column(kind, i).end());
                return p;
            };
            auto vs = [&](const std::vector<std::size_t> &list) {
                vars v;
                for (auto i : list)
                    v.push_back(pool[i].v);
                return v;
            };
            auto xs = [&](const std::vector<std::size_t> &list) {
                values v;
                for (auto i : list)
                    v.push_back(pool[i].x);
                return v;
            };
            u64 seen = 17;
            for (auto &st : s.steps) {
                if (st.op != "place" || all.size() >= 16)
                    continue;
                c.sim_steps++;
                placement x;
                unsigned which = unsigned(u64(st.arg(0)) % UNITS);
                u64 param = u64(st.arg(1)) % 1000000;
                std::size_t factor = 1 + u64(st.arg(2) - 1) % 5, spare = u64(st.arg(3)) % 9;
                auto key = std::make_tuple(which, which == PATCHWORK ? param : 0, factor, spare);
                bool again = st.arg(6) && known.count(key);
                x.u = again ? known[key] : known[key] = make_unit(which, param, factor, spare);
                x.name = x.u->name + " stretched " + std::to_string(factor) + " times";
                x.row = row;
                Rng g(u64(st.arg(4)) * 3 + 1);
                values wanted = x.u->want(g);
                std::size_t at = 0;
                bool chained = false;
                for (auto size : x.u->bundle) {
                    auto &b = bundles[size];
                    if (!b.empty() && g.chance(1, 2)) {
                        std::size_t start = b[g.below(b.size())];
                        for (std::size_t k = 0; k < size; k++)
                            x.in.push_back(start + k);
                        chained = true;
                    } else
                        for (std::size_t k = 0; k < size; k++)
                            x.in.push_back(add_public(wanted[at + k]));
                    at += size;
                }
                if (!x.u->fits(xs(x.in))) {
                    x.in.clear();
                    for (auto &w : wanted)
                        x.in.push_back(add_public(w));
                    chained = false;
                }
                auto expected = x.u->result(xs(x.in));
                unsigned order = unsigned(u64(st.arg(5)) % 4);
                c.event("place " + x.name + " row " + std::to_string(row) + " order " + std::to_string(order) + (again ? " again" : "") + " inputs " + [&] {
                    std::string t;
                    for (auto i : x.in)
                        t += " " + std::to_string(i);
                    return t;
                }());
                seen = seen * 1000003 + which * 17 + factor * 5 + order * 3 + again + param * 7;
                c.state(seen);
                c.probe("stretched", factor > 1);
                c.probe("stretcher-used-again", again);
                c.probe("chained", chained);
                c.probe(which == PATCHWORK ? "patchwork" : which == PRODUCT ? "foreign" : "curve");
                c.nontrivial = c.nontrivial || factor > 1;
                auto before = photograph();
                std::size_t old_gates = bp->gates().size();
                vars out[2];
                auto pass = [&](bool circuit) {
                    out[circuit] = circuit ? x.u->circuit(C, T, vs(x.in), std::uint32_t(row)) : x.u->assign(T, vs(x.in), std::uint32_t(row));
                };
                pass(order % 2 == 0);
                if (order % 2)
                    c.fault("assignment-first");
                if (order >= 2) {
                    // something else happens in between: the same stretcher prepares a table of another prover
                    table_t other(W, 1, 1, 300);
                    circuit_t elsewhere;
                    values alt = x.u->want(g);
                    vars in;
                    for (std::size_t i = 0; i < alt.size(); i++) {
                        other.public_input(0, std::uint32_t(i + 3)) = alt[i];
                        in.push_back(absolute(1, 0, i + 3));
                    }
                    std::uint32_t r = std::uint32_t(g.below(9));
                    x.u->circuit(elsewhere, other, in, r);
                    auto v = x.u->assign(other, in, r);
                    auto want = x.u->result(alt);
                    for (std::size_t i = 0; i < v.size(); i++)
                        c.require(var_value(other, v[i]) == want[i], "wrong-result", x.name + " in another table: result " + std::to_string(i) + " is wrong");
                    c.fault("passes-interleaved");
                }
                pass(order % 2 != 0);
                std::size_t rows = x.u->rows();
                c.require(rows >= 1 && rows <= x.u->plain_rows(), "wrong-rows",
                          x.name + " takes " + std::to_string(rows) + " rows instead of at most " + std::to_string(x.u->plain_rows()));
                c.probe("fewer-rows", rows < x.u->plain_rows());
                c.require(out[0].size() == expected.size() && out[1].size() == expected.size(), "wrong-result", x.name + " has a wrong number of results");
                for (std::size_t i = 0; i < expected.size(); i++) {
                    c.require(out[0][i] == out[1][i], "passes-disagree", x.name + ": result " + std::to_string(i) + " is " + text(out[0][i]) + " for one pass and " + text(out[1][i]) + " for the other");
                    c.require(out[0][i].type == var::column_type::witness && std::size_t(out[0][i].rotation) >= row && std::size_t(out[0][i].rotation) < row + rows &&
                                  out[0][i].index < x.u->width,
                              "outside", x.name + " names " + text(out[0][i]) + " as a result, which is not among its cells");
                    value got = var_value(*tab, out[0][i]);
                    c.require(got == expected[i], "wrong-result",
                              x.name + " at row " + std::to_string(row) + ": result " + std::to_string(i) + " is " + text(got) + " instead of " + text(expected[i]));
                }
                // it stays within its rows and columns
                auto after = photograph();
                for (int kind = 0; kind < 3; kind++)
                    for (std::size_t i = 0; i < counts(kind); i++) {
                        std::size_t base = kind == 0 ? 0 : kind == 1 ? W : W + 1;
                        auto &now = after[base + i];
                        bool existed = kind < 2 || i < old_gates;
                        for (std::size_t r = 0; r < now.size(); r++) {
                            bool mine = r >= row && r < row + rows && (kind || i < x.u->width);
                            value old = existed && base + i < before.size() && r < before[base + i].size() ? before[base + i][r] : value::zero();
                            c.require(mine || now[r] == old, "outside",
                                      x.name + " at rows " + std::to_string(row) + " to " + std::to_string(row + rows - 1) + " wrote " +
                                          (kind == 0 ? "witness " : kind == 1 ? "constant " : "selector ") + std::to_string(i) + ", row " + std::to_string(r));
                        }
                    }
                for (std::size_t i = 0; i < expected.size(); i++) {
                    pool.push_back({out[0][i], expected[i]});
                    x.out.push_back(pool.size() - 1);
                }
                if (which == PATCHWORK)
                    for (auto o : x.out)
                        bundles[1].push_back(o);
                else
                    bundles[which == PRODUCT ? 4 : 8].push_back(x.out[0]);
                row += rows;
                all.push_back(x);
            }
            for (std::size_t i = 0; i < W; i++)
                tab->witness(std::uint32_t(i), std::uint32_t(row + 4)) = value::zero();
            tab->constant(0, std::uint32_t(row + 4)) = value::zero();
            auto satisfied = [&] { return nil::blueprint::is_satisfied(*bp, *tab); };
            c.require(satisfied(), "not-satisfied", "the finished table does not satisfy the circuit");
            for (auto &x : all)
                for (auto o : x.out)
                    c.require(var_value(*tab, pool[o].v) == pool[o].x, "wrong-result", x.name + " lost a result");
            if (all.empty())
                return;
            typedef std::tuple<int, std::size_t, std::int64_t> place;
            std::map<place, place> parent;
            std::function<place(place)> root = [&](place p) {
                auto it = parent.find(p);
                return it == parent.end() || it->second == p ? p : it->second = root(it->second);
            };
            auto place_of = [](const var &v) { return place(int(v.type), v.index, v.rotation); };
            for (auto &cc : bp->copy_constraints())
                for (auto *v : {&cc.first, &cc.second}) {
                    parent.insert({place_of(*v), place_of(*v)});
                    parent[root(place_of(*v))] = root(place_of(cc.first));
                }
            Rng g(u64(s.get("corrupt")) * 7 + 3);
            for (int k = 0; k < 6; k++) {
                auto &x = all[g.below(all.size())];
                std::size_t o = x.out[g.below(x.out.size())];
                var v = pool[o].v;
                value &cell = tab->witness(std::uint32_t(v.index), std::uint32_t(v.rotation));
                value old = cell, now = old + value(1 + g.below(5));
                cell = now;
                c.fault("output-corrupted");
                c.require(!satisfied(), "wrong-output-accepted", x.name + ": a wrong value in output cell " + text(v) + " goes unnoticed");
                tab->witness(std::uint32_t(v.index), std::uint32_t(v.rotation)) = old;
                // in all of its copies
                place mine = root(place_of(v));
                std::vector<place> same;
                bool changeable = true;
                for (auto &p : parent)
                    if (root(p.first) == mine) {
                        same.push_back(p.first);
                        changeable = changeable && std::get<0>(p.first) == int(var::column_type::witness);
                    }
                if (same.empty() || !changeable)
                    continue;
                for (auto &p : same)
                    tab->witness(std::uint32_t(std::get<1>(p)), std::uint32_t(std::get<2>(p))) = now;
                c.fault("value-changed-everywhere");
                c.require(!satisfied(), "wrong-value-accepted", x.name + ": a wrong value in " + text(v) + " and its copies goes unnoticed");
                for (auto &p : same)
                    tab->witness(std::uint32_t(std::get<1>(p)), std::uint32_t(std::get<2>(p))) = old;
            }
            // the trace of a computation on other inputs, in place of the true one
            for (int k = 0; k < 3; k++) {
                auto &x = all[g.below(all.size())];
                values is = xs(x.in), alt = x.u->want(g);
                // all inputs, or one of the values that belong together
                if (g.chance(1, 2)) {
                    std::size_t pick = g.below(x.u->bundle.size()), at = 0;
                    for (std::size_t b = 0; b < x.u->bundle.size(); b++) {
                        for (std::size_t i = 0; i < x.u->bundle[b]; i++)
                            if (b != pick)
                                alt[at + i] = is[at + i];
                        at += x.u->bundle[b];
                    }
                }
                // an input given twice is one value
                if (!x.u->fits(alt) || !x.u->differs(is, alt))
                    continue;
                table_t other(W, 1, 1, 300);
                circuit_t elsewhere;
                vars in;
                for (std::size_t i = 0; i < alt.size(); i++) {
                    other.public_input(0, std::uint32_t(i)) = alt[i];
                    in.push_back(absolute(1, 0, i));
                }
                x.u->circuit(elsewhere, other, in, std::uint32_t(x.row));
                x.u->assign(other, in, std::uint32_t(x.row));
                std::vector<std::pair<std::pair<std::size_t, std::size_t>, value>> undo;
                for (std::size_t i = 0; i < x.u->width; i++)
                    for (std::size_t r = x.row; r < x.row + x.u->rows(); r++) {
                        auto &col = static_cast<const table_t &>(other).witness(std::uint32_t(i));
                        undo.push_back({{i, r}, tab->witness(std::uint32_t(i), std::uint32_t(r))});
                        tab->witness(std::uint32_t(i), std::uint32_t(r)) = r < col.size() ? col[r] : value::zero();
                    }
                c.fault("trace-for-other-inputs");
                c.require(!satisfied(), "wrong-input-accepted", x.name + " at row " + std::to_string(x.row) + " accepts the computation for other inputs");
                for (auto &u : undo)
                    tab->witness(std::uint32_t(u.first.first), std::uint32_t(u.first.second)) = u.second;
            }
        }
    };
}    // namespace

int main(int argc, char **argv) {
    C18 h;
    return sim::main(h, argc, argv);
}
