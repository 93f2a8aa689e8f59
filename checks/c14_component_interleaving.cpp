// C14: components stay satisfied however callers interleave them.
#define VERIF_ALL_COMPONENTS
#include "interleaving.hpp"

namespace {
    struct C14 : Interleaving {
        const char *property() const override { return "C14"; }
        const char *rule() const override {
            return "a run of 1..30 operations of 1..3 callers (views of one circuit and table, or the objects themselves) places components of "
                   "31 kinds with random parameters, widths, columns and inputs (fresh public cells or results of other components), one below "
                   "the other or side by side, circuit pass and assignment pass at once, apart, in any order and by different callers; "
                   "then corrupts outputs and inputs and adds a component whose input is out of range; "
                   "non-trivial: at least two components, one using the result of another; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (caller, component, pass order, inputs) sequence so far"; }
        std::vector<std::string> real_components() const override {
            return {"component.hpp", "manifest.hpp", "circuit.hpp", "assignment.hpp", "circuit_proxy.hpp", "assignment_proxy.hpp", "gate_id.hpp",
                    "lookup_library.hpp", "satisfiability_check.hpp", "field, interpolation, logic, range check, comparison, bit, shift, "
                    "division, flexible and placeholder components (31 kinds)"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, expressions and plonk table base class (stand-in)", "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"components get disjoint cells: disjoint rows, or disjoint columns and at most one user of the constant column",
                    "the zero constant is expected in constant column 0, as the components' sources do",
                    "assignment runs after the inputs of the component are known"};
        }
        std::vector<std::string> probe_names() const override {
            return {"chained", "side-by-side", "several-cells-repaired", "moved-within-a-sum", "scattered-columns", "other-constant-column", "same-kind-other-parameters", "same-gate-reused", "peeked-result", "lookup-component",
                    "multi-row-component", "first-row-not-zero"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 200000 : 20000; }

        unsigned kinds() const override { return comp::ALL_KINDS; }
        comp::kind kind_of(unsigned which, u64 param, std::size_t max_width) const override { return comp::any_kind(which, param, max_width); }
        std::vector<unsigned> strict_kinds() const override { return {comp::COMPARE_CHECKED, comp::RANGE_CHECK}; }
        std::vector<std::string> tables() const override { return {"binary_and_table/full", "binary_xor_table/full"}; }
    };
}    // namespace

int main(int argc, char **argv) {
    C14 h;
    return sim::main(h, argc, argv);
}
