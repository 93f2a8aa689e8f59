// C16: hash, curve, foreign-field and verifier components stay satisfied however callers interleave them.
#include "interleaving.hpp"
#include "component_kit2.hpp"

namespace {
    struct C16 : Interleaving {
        const char *property() const override { return "C16"; }
        const char *rule() const override {
            return "a run of 1..20 operations of 1..3 callers (views of one circuit and table, or the objects themselves) places components of "
                   "23 heavier kinds and 7 small ones with random parameters, widths, columns and inputs (fresh public cells or results of "
                   "other components: points, limbs, hash states), one below the other or side by side, circuit pass and assignment pass at "
                   "once, apart, in any order and by different callers; then corrupts outputs and inputs and adds a component whose input is "
                   "out of range; non-trivial: at least two components, one using the result of another; distinct by event log";
        }
        const char *state_measure() const override { return "hash of the (caller, component, pass order, inputs) sequence so far"; }
        std::vector<std::string> real_components() const override {
            return {"component.hpp", "manifest.hpp", "circuit.hpp", "assignment.hpp", "circuit_proxy.hpp", "assignment_proxy.hpp", "gate_id.hpp",
                    "satisfiability_check.hpp", "state selector, exponentiation, square root, FRI cosets, permutation, gate and lookup argument "
                    "verifiers, decomposition, foreign-field arithmetic, pallas and ed25519 addition and doubling, point times bit, scalar range and reduction, endomorphism scalar, "
                    "position of a point in a domain, SHA-512 rounds, two poseidons"};
        }
        std::vector<std::string> stub_components() const override {
            return {"crypto3 field, curve groups, expressions and plonk table base class (stand-in)", "random_device (simulated)"};
        }
        std::vector<std::string> assumptions() const override {
            return {"components get disjoint cells: disjoint rows, or disjoint columns and at most one user of the constant column",
                    "constants are expected in constant column 0, as the components' sources do",
                    "assignment runs after the inputs of the component are known, and after the circuit pass where it reads constants"};
        }
        std::vector<std::string> probe_names() const override {
            return {"chained", "side-by-side", "several-cells-repaired", "moved-within-a-sum", "scattered-columns", "other-constant-column", "same-kind-other-parameters", "same-gate-reused", "peeked-result", "multi-row-component",
                    "first-row-not-zero"};
        }
        u64 default_runs(bool thorough) const override { return thorough ? 50000 : 5000; }
        std::size_t most_steps() const override { return 20; }
        std::size_t least_width() const override { return 15; }
        std::size_t selectors() const override { return 700; }
        std::size_t most_gates() const override { return 60; }

        unsigned kinds() const override { return comp::HEAVY_KINDS + comp::SMALL_KINDS; }
        comp::kind kind_of(unsigned which, u64 param, std::size_t max_width) const override {
            return which < comp::HEAVY_KINDS ? comp::heavy_kind(which, param, max_width) : comp::small_kind(which - comp::HEAVY_KINDS, param);
        }
        std::vector<unsigned> strict_kinds() const override { return {comp::STATE_SELECTOR, comp::DECOMPOSITION, comp::FOREIGN_RANGE, comp::X_INDEX, comp::BIT_TIMES_POINT}; }
    };
}    // namespace

int main(int argc, char **argv) {
    C16 h;
    return sim::main(h, argc, argv);
}
