#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
B = "include/nil/blueprint/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": [B + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": hook}
    if state: a["state"] = [{"name": state, "meaning": "state the property speaks about", "where": files[0]}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Prover views of one shared circuit are complete and separate",
  "However provers interleave their gate, lookup gate, copy constraint, selector and lookup table operations on views of one shared circuit, the shared circuit ends up identical to the one a single builder gets from the same operations in the same order. Each view reports as used exactly the gates, lookup gates, copy constraints and lookup tables that were requested through it, including ones another prover had already added. Selectors handed to different provers for different gates or dynamic tables are never the same.",
  ["schedules", "histories", "configurations"], "every interleaving of operations of 1 to 4 provers over one shared circuit, every mix of new, repeated and already-shared requests",
  "tests run one fixed sequence with two provers; the failing orders depend on which prover first introduces a gate and which later reuses it",
  ["blueprint/plonk/circuit_proxy.hpp", "blueprint/plonk/circuit.hpp"],
  [("used-item bookkeeping of a view", "circuit_proxy.hpp add_gate/add_lookup_gate/add_copy_constraint/add_lookup_table"), ("selector numbering", "circuit.hpp gate registration")],
  "public accessors of the shared circuit and of every view after every operation", "shared circuit, per-view sets of used items")

p("C02", "Equal gates share one selector, different gates never do",
  "Requesting a gate whose constraints, in any order and however they are written, equal those of a gate requested earlier in the same form (single constraint or list) gives the earlier gate's selector and adds nothing; requesting a gate with other constraints gives a fresh selector and adds exactly that gate. The same holds for lookup gates with respect to their tables and input expressions. This holds for every history of requests and whatever the random source delivers, including draws of zero.",
  ["histories", "inputs", "fault_sequences"], "all request histories over a pool of gates with near-duplicates; all entropy, including zero field elements",
  "the identity of a gate is a randomised fingerprint; tests see one random draw and a couple of gates",
  ["gate_id.hpp", "blueprint/plonk/circuit.hpp"],
  [("randomised gate fingerprint", "gate_id.hpp"), ("fingerprint to selector map", "circuit.hpp gate registration")],
  "returned selector numbers and the circuit's gate lists", "selector map and gate lists")

p("C03", "Independent parties build byte-identical circuits and tables",
  "Parties that run the same sequence of building operations in separate processes obtain the same circuit, the same assignment table, the same selectors and the same exported bytes. The result does not depend on the entropy a process receives, on memory layout, on other circuits built earlier in the same process, or on whether a party only builds the circuit or also fills in the table.",
  ["configurations", "histories", "programs"], "every building program and every combination of per-process entropy, heap contents, warm-up work and pass order",
  "a unit test runs in one process with one entropy stream and never compares two independent parties",
  ["gate_id.hpp", "blueprint/plonk/circuit.hpp", "blueprint/plonk/assignment.hpp", "lookup_library.hpp"],
  [("entropy-dependent fingerprints must not leak into order", "gate_id.hpp"), ("ordered containers deciding layout", "component_batch.hpp, lookup_library.hpp, assignment.hpp")],
  "exported circuit and table text, selector numbers and public accessors compared between parties")

p("C04", "Prover views of one shared table behave as a single table",
  "However provers interleave reads and writes through views of one shared assignment table, every read through any view returns the last value written to that cell through any view, and the shared table equals the one a single writer would have produced. Each view reports as used exactly the rows that were written, or whose selector was enabled, through it. Values stored outside the table through one view are readable through the variables handed out for them, and two views never hand out the same batched variable for different values. In checking mode a view refuses to read exactly the cells in rows it has not used.",
  ["schedules", "histories"], "every interleaving of cell, selector, shared, private and batched-variable operations of 1 to 4 provers",
  "tests drive one view at a time with a fixed order of writes",
  ["blueprint/plonk/assignment_proxy.hpp", "blueprint/plonk/assignment.hpp"],
  [("forwarding of cell access and used-row bookkeeping", "assignment_proxy.hpp"), ("storage of values outside the table", "assignment.hpp")],
  "cell, variable and used-row accessors of the shared table and all views after every operation", "table columns, used-row sets, private and batch storage")

p("C05", "Batched component requests each get their own correct result",
  "For every history of requests to batched components and every order in which independent callers issue them, each caller's result variable ends up holding the component's result on that caller's inputs once batches are finalised. Identical requests share one evaluation, the finished table satisfies all constraints, and every use of a batched variable in copy constraints and in values outside the table refers to a real table cell afterwards. The circuit after finalisation does not depend on the input values.",
  ["histories", "schedules", "programs"], "every interleaving of requests of several callers to several batched components, any batch width, then finalisation",
  "tests use a fixed handful of requests in one order and one batch width",
  ["component_batch.hpp", "blueprint/plonk/assignment.hpp", "components/algebra/fields/plonk/addition.hpp"],
  [("request table and finalisation", "component_batch.hpp"), ("batched variable replacement", "component_batch.hpp, assignment.hpp, circuit.hpp")],
  "values of result variables, copy constraints, satisfiability of the finished table")

p("C06", "Batched constants land in free cells and disturb nothing",
  "After constant batching is finalised, every batched constant is held by a cell of a constant column, every copy constraint that mentioned a batched constant refers to that cell, and equal constants may share a cell. No constant cell that was already assigned and is used by a gate or a copy constraint changes its value. A table that satisfied its circuit before finalisation still does afterwards.",
  ["histories", "configurations"], "every history of gates reading constants at any row offset, directly assigned constants, batched constants and copy constraints, and any start row",
  "tests finalise a few constants in an otherwise empty column",
  ["blueprint/plonk/assignment.hpp"], [("finding unused constant cells", "assignment.hpp finalize_constant_batches")],
  "constant columns, copy constraints and satisfiability before and after finalisation", "constant columns, batched constants")

p("C07", "Lookup table reservation is stable and order-respecting",
  "Reserved lookup tables get consecutive indexes in order of first reservation, repeated reservations change nothing, and after reservation closes every reserved name resolves to its index and to the full content of its table, no matter how static and dynamic reservations, definitions and queries interleave. Unknown tables and reservations after closing are reported as errors rather than accepted. A failure while closing never leaves a partly filled set of tables that later calls treat as complete.",
  ["histories", "fault_sequences"], "every history of reserve, register, define, query and close operations with allocation failures at any point of closing",
  "tests reserve a fixed list once and never fail in the middle",
  ["lookup_library.hpp"], [("reservation bookkeeping and freezing", "lookup_library.hpp")],
  "index maps, table definitions and identifier maps returned to callers", "reserved table list, frozen maps")

p("C08", "A failed allocation never leaves a half-applied building operation",
  "If memory runs out during any circuit or table building operation, the operation reports it to the caller, and repeating the operation afterwards gives the result it would have given without the failure. Operations that succeeded before or after are unaffected: the finished circuit, table and prover views equal those of a run without failures.",
  ["fault_sequences", "histories"], "every building history and every allocation inside any operation as the one that fails",
  "tests never fail an allocation",
  ["blueprint/plonk/circuit.hpp", "blueprint/plonk/circuit_proxy.hpp", "blueprint/plonk/assignment.hpp", "blueprint/plonk/assignment_proxy.hpp", "lookup_library.hpp"],
  [("gate registration in several containers", "circuit.hpp"), ("view bookkeeping after forwarding", "circuit_proxy.hpp, assignment_proxy.hpp")],
  "public accessors and exports compared with a failure-free run")

p("C09", "Parallel SHA table generation is independent of thread scheduling",
  "Generating a SHA-256 reverse sparse table with any number of worker threads gives, under every thread interleaving, exactly the pairs that the single-threaded definition gives: none missing, none added. No two threads access shared data without synchronisation, and the call returns only after all its work is done. If a worker thread cannot be started, the caller gets an error instead of process termination, and no started worker outlives the call.",
  ["schedules", "fault_sequences"], "every interleaving of worker threads at memory-access granularity, every thread-creation failure, every supported worker count",
  "real runs sample a few schedules the operating system happens to choose; races in the shared set or power cache show up rarely",
  ["components/hashes/sha2/plonk/detail/sha_table_generators.hpp", "components/hashes/sha2/plonk/detail/split_functions.hpp"],
  [("locked insertion into the shared set", "sha_table_generators.hpp"), ("power cache filled before threads start", "split_functions.hpp"), ("range dispatch", "sha_table_generators.hpp")],
  "resulting pair set, race detector, thread life times", "shared set, power cache")

p("C10", "Lookup table files load completely and exactly, or not at all",
  "Loading a lookup table from a stream or from a list of candidate files either reports success and delivers exactly the announced rows in order, or reports failure. Missing files, read errors, truncation, corrupted bytes and garbage headers in one candidate never produce a wrong or partial table and never prevent a later intact candidate from being used. Interrupted and short reads have no effect on the result, and earlier contents of the caller's result buffer never show through.",
  ["fault_sequences", "inputs", "histories"], "every table, candidate list, truncation point, corrupted byte, failing or short read",
  "tests load one intact embedded table",
  ["detail/lookup_table_loaders.hpp", "detail/lookup_table_precomputes.hpp"],
  [("header and row parsing", "lookup_table_loaders.hpp parse_lookup_table"), ("candidate fall-through", "lookup_table_loaders.hpp load_lookup_table")],
  "returned status and table content, compared with an independent reader of the same bytes")

p("C11", "Exports go whole to the given stream and failures are visible",
  "Exporting a circuit or an assignment table writes the complete representation to the stream it was given and to nowhere else: all gates and copy constraints of a circuit, all gates, copy constraints, lookup gates and lookup tables used through a circuit view, and every cell of a table, column by column. Reading a table export back gives the table's cells; the export of a table view shows the witness cells of the rows used through it. Exporting changes nothing in the exported object. When the stream stops accepting bytes at any point, what was written is a prefix of the complete representation and the stream is left in a failed state.",
  ["fault_sequences", "histories"], "every circuit, table and view content and every byte position at which the output stream fails, stalls or delivers short writes",
  "tests print to the console without comparing content and never fail a write",
  ["blueprint/plonk/circuit.hpp", "blueprint/plonk/circuit_proxy.hpp", "blueprint/plonk/assignment.hpp", "blueprint/plonk/assignment_proxy.hpp"],
  [("text export", "export_circuit, export_table")],
  "bytes received by the sink, bytes on standard output, stream state")

p("C12", "A table is accepted exactly when it satisfies its circuit",
  "The satisfiability check accepts a table if and only if every enabled gate's constraints vanish, every enabled lookup finds its row in the named table and every copy constraint joins equal cells. In particular, when a satisfied table has any constrained cell, selector or public input corrupted, the check rejects it exactly when the corruption breaks some constraint, wherever the cell is and however many corruptions there are.",
  ["fault_sequences", "histories", "inputs"], "every built circuit and table and every set of corrupted cells, selectors, constants or public inputs",
  "tests only show that honest tables are accepted, plus a few hand-picked rejections",
  ["utils/satisfiability_check.hpp"], [("gate, lookup and copy evaluation", "satisfiability_check.hpp")],
  "returned verdict against an independent evaluation of all constraints")

p("C13", "zkEVM traces hold the machine's results however opcodes follow each other",
  "For every sequence of the implemented opcodes (ISZERO, ADD, SUB, MUL, DIV), executed by one or several machines interleaved in one process on any stack contents, table widths and start rows, each finished zkEVM table satisfies its circuit, holds the operands and the EVM result modulo 2^256 (division by zero gives zero), leaves the machine's stack as it was, and neither the circuit nor the table depends on what other machines do. A trace in which one operand, result, row counter, step flag, opcode or in-opcode state variable alone is altered so that it is no longer the machine's step is rejected. State transition constraints accept exactly the successor states they describe.",
  ["programs", "schedules", "fault_sequences"], "every opcode sequence, interleaving of machines and single corruption of the finished trace",
  "tests run sequences of a single opcode on one machine and never corrupt the trace",
  ["zkevm/zkevm_circuit.hpp", "zkevm/state.hpp", "zkevm/state_selector.hpp", "zkevm/zkevm_word.hpp", "zkevm/operations/"],
  [("row counter, step flag and opcode selection", "zkevm_circuit.hpp"), ("state transitions", "state.hpp"), ("opcode constraints and witnesses", "operations")],
  "satisfiability verdict, table contents and machine stack")

p("C14", "Components stay satisfied however callers interleave them",
  "For every interleaving of component placements by several callers on one shared circuit and table, with circuit generation and assignment done by the same or by different parties and in any order, the finished table satisfies the circuit and each component's outputs equal its defining function of its inputs. Corrupting a computed output cell makes the table unsatisfied.",
  ["schedules", "programs", "fault_sequences"], "every interleaving of component placements, pass orders and prover assignments, and every corrupted output",
  "tests place one component alone at a fixed row",
  ["component.hpp", "blueprint/plonk/circuit.hpp", "blueprint/plonk/assignment.hpp", "components/algebra/fields/plonk/"],
  [("placement, selectors and copy constraints", "component.hpp, component sources")],
  "satisfiability verdict and output variable values")

p("C15", "SHA digit-splitting helpers are safe and exact for concurrent callers",
  "Splitting a value into sparse digits and joining it back give, for every caller thread and every interleaving with other callers using the same or other bases, the digits that positional arithmetic defines. Concurrent callers never access shared data without synchronisation.",
  ["schedules", "inputs"], "every interleaving of concurrent callers at memory-access granularity and every order of first use",
  "the functions share a hidden cache; single-threaded tests cannot see its races or order effects",
  ["components/hashes/sha2/plonk/detail/split_functions.hpp"], [("shared cache of powers", "split_functions.hpp")],
  "returned digit vectors, race detector", "power cache")

p("C16", "Hash, curve and verifier components stay satisfied however callers interleave",
  "For every interleaving of placements of the poseidon, decomposition, SHA-512 round, curve addition and doubling, endomorphism scalar, point-times-bit, scalar range and reduction, foreign-field arithmetic, domain index, exponentiation, square root, selector and placeholder-verifier components on one shared circuit and table, whatever columns, rows and parameters they get, and whether circuit generation and assignment are done together, apart, or by different parties, the finished table satisfies the circuit and each component's outputs are its defining function of its inputs, also when these are points, limbs or states computed by other components. A changed output or input cell, or an input outside the range a component is there to enforce, makes the table unsatisfied.",
  ["schedules", "programs", "fault_sequences"], "every interleaving of placements, pass orders and prover assignments, every parameter and set of columns, and every corrupted cell",
  "tests place one component alone on columns 0, 1, 2, ... at a fixed row of an empty circuit",
  ["components/hashes/poseidon/", "components/hashes/sha2/plonk/", "components/algebra/curves/", "components/algebra/fields/plonk/non_native/", "components/systems/snark/plonk/", "zkevm/state_selector.hpp"],
  [("column use, selectors, copy constraints and constants of each component", "component sources"), ("composition of components from components", "complete_addition.hpp, lookup_argument_verifier.hpp")],
  "satisfiability verdict and output variable values")

p("C17", "The zkEVM bytecode table holds well-formed code whatever a prover changes",
  "For every list of contracts that fits, on any columns and rows, built in either order of circuit generation and assignment, directly or through views, and interleaved with other circuits' bytecode tables, the table holds each contract's length, bytes, positions, opcode marks and hash, and satisfies its circuit. Readers that look rows up accept exactly the rows that are in the table. Whatever a prover changes in one or several cells, also consistently, the circuit refuses a table in which bytes, lengths, positions, hash, accumulated code, or the division into opcodes and operand bytes contradict each other, as it does for unknown opcodes, values that are no bytes and wrong lengths.",
  ["schedules", "inputs", "fault_sequences"], "every list of contracts, every interleaving of parties and passes, every set of changed cells and every reader",
  "tests build one table of fixed contracts and never corrupt it",
  ["zkevm/bytecode.hpp", "lookup_library.hpp"],
  [("table rows, constraints and lookups", "bytecode.hpp"), ("dynamic table registration and selectors", "lookup_library.hpp, circuit.hpp")],
  "satisfiability verdict, table rows and readers' lookups")

p("C18", "Stretched components compute and constrain what the plain component does",
  "A component rearranged by the stretcher over one to several times its columns gives the plain component's results in both passes, in the same cells, stays within its own rows and columns of the table and constant column, and satisfies its circuit, wherever and however often it is placed, whether its inputs are public or results of other placements, in either order of the passes, directly or through views, and when one stretcher serves several placements and tables in turn. A table with a wrong output, a wrong output repeated in all cells tied to it, or the whole computation for other inputs in place of the true one is refused.",
  ["schedules", "inputs", "fault_sequences"], "every component structure, stretch factor, sequence of placements and order of passes, and every corrupted table",
  "tests place one stretched component once at row 0 with public inputs in order and never corrupt the table",
  ["component_stretcher.hpp", "utils/gate_mover.hpp", "detail/huang_lu.hpp"],
  [("zones, row, column and constant remapping", "component_stretcher.hpp"), ("rewriting of gates", "utils/gate_mover.hpp"), ("packing", "detail/huang_lu.hpp")],
  "satisfiability verdict, result cells and values, untouched cells")

p("C19", "Expressions and polynomial checks in a circuit mean what they say",
  "Every expression evaluated in the circuit through the shared batches, and every check of a final polynomial at pairs of opposite points, gives the expression's value of the mapped cells and accepts exactly the true polynomial values, whichever callers or views ask in whatever order and interleaving of circuit and assignment passes, however often the same is asked again, and also when results of earlier expressions are used. Both passes name the same result; after the batches are placed the table satisfies the circuit; a changed result, alone or with all its copies, a changed input, or a false polynomial value is refused.",
  ["schedules", "inputs", "fault_sequences"], "every expression and polynomial, every interleaving of callers and passes, and every changed cell",
  "tests evaluate four fixed expressions and one size of polynomial, always circuit first and assignment second, from one caller",
  ["components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp", "components/systems/snark/plonk/verifier/final_polynomial_check.hpp", "component_batch.hpp"],
  [("expression evaluation", "expression_evaluation_component.hpp"), ("polynomial check", "final_polynomial_check.hpp"), ("batching", "component_batch.hpp, assignment.hpp")],
  "values and places of results, satisfiability verdict")

# pure functions: listed, not claimed
p("P01", "Manifest combination computes exact feasible column counts",
  "Combining column-count requirements of components yields exactly the column counts that satisfy all of them, and the reported minimum, maximum and satisfiability agree with that set.",
  ["inputs"], "all requirement combinations", "tests sample a few combinations",
  ["manifest.hpp"], [("requirement merging", "manifest.hpp")], "feasible column counts")
p("P02", "Two-machine scheduling bound is achieved",
  "The scheduler for multi-column witness placement returns a valid assignment whose makespan stays within its proven bound.",
  ["inputs"], "all job lists", "tests sample a few job lists",
  ["detail/huang_lu.hpp"], [("scheduling heuristic", "huang_lu.hpp")], "returned schedule")
p("P03", "Each component computes its defining function",
  "For every valid input a component's assigned outputs equal its mathematical definition and a wrong output is rejected.",
  ["inputs"], "all component inputs", "tests sample a few inputs per component",
  ["components"], [("component arithmetic", "components/**")], "component outputs")
p("P04", "Connectedness analysis reports exactly the unconstrained cells",
  "The connectedness analysis of a component reports a problem exactly when some input, output or internal cell is not linked to the rest by constraints.",
  ["inputs"], "all components", "tests sample a few components",
  ["utils/connectedness_check.hpp"], [("union of linked cells", "connectedness_check.hpp")], "returned verdict")
p("P05", "Opcode tables are a bijection and words chunk losslessly",
  "Every EVM opcode maps to one byte and one number and back, and splitting a 256-bit word into chunks and joining them loses nothing.",
  ["inputs"], "all opcodes and words", "tests sample a few values",
  ["zkevm/zkevm_opcodes.hpp", "zkevm/zkevm_word.hpp"], [("opcode maps, word chunking", "zkevm")], "map lookups")
p("P07", "R1CS gadgets constrain exactly their function",
  "Every R1CS gadget accepts exactly the witness values that its function defines.",
  ["inputs"], "all gadget inputs", "tests sample a few inputs",
  ["components"], [("gadget constraints", "r1cs components")], "constraint system verdict")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if sch:
    for x in P:
        jsonschema.validate(x, sch)
        assert len(x["title"]) <= 80, x["id"]
    print(len(P), "properties valid")
