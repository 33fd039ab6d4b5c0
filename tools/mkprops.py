#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept as a script so that wording lives in one place."""
import json, os
I = "include/nil/blueprint/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": m, "where": files[0] if len(files) == 1 else ", ".join(files)} for m in mech]}
    if state: a["state"] = [{"name": state[0], "meaning": state[1], "where": files[0]}]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
M = [I + "manifest.hpp"]
p("M01", "Intersecting two column-amount requirements keeps exactly the common amounts",
  "For any two requirements on an amount of columns (nothing, one value, an arithmetic range, or a set of values), the intersection admits an amount if and only if both requirements admit it. This holds in both argument orders and for every combination of kinds.",
  ["inputs"], "every pair of requirements of every kind, with non-negative bounds and amounts small enough that the products of starts and steps fit the integer type, and every amount",
  "The space of pairs is unbounded and the interesting cases (different residues, coprime steps, one-element results) are a measure-zero part of it; a suite checks a dozen pairs.",
  M, ["manifest_single_value_param::intersect", "manifest_range_param::intersect", "manifest_set_param::intersect", "manifest_unsat_param::intersect"])
p("M02", "Removing amounts from a requirement removes those amounts and nothing else",
  "Subtracting a set of values from a requirement yields a requirement that admits an amount if and only if the original admitted it and it is not one of the removed values. In particular no other amount is lost at either end of a range, and nothing is removed when none of the values was admitted.",
  ["inputs"], "every requirement of every kind, every finite set of removed values, every amount",
  "Off-by-one mistakes at the ends of stepped ranges show only for particular residues of the bounds and particular contiguous runs of removed values.",
  M, ["manifest_range_param::subtract", "manifest_set_param::subtract", "manifest_single_value_param::subtract", "manifest_unsat_param::subtract"])
p("M03", "Combining a component's and its sub-component's requirements is never too small",
  "When two satisfiable requirements are merged, every amount the result admits is at least the smallest amount each operand admits, and is an amount one of the operands admits. The result is satisfiable exactly when both operands are, and merging in the other order admits the same amounts.",
  ["inputs"], "every pair of requirements of every kind with non-negative bounds, amounts small enough that an amount plus a step fits the signed integer type, and every amount",
  "A merge that under-provisions one operand only for unaligned ranges or for sets lying wholly below a range is invisible to a handful of aligned examples.",
  M, ["manifest_single_value_param::merge_with", "manifest_range_param::merge_with", "manifest_set_param::merge_with", "manifest_unsat_param::merge_with"])
p("M04", "An amount is accepted exactly when the requirement admits it",
  "A strict check accepts an amount exactly when it is one of the admitted amounts; a lenient check accepts it exactly when the requirement admits some amount that is not larger. No amount is accepted by a requirement that admits nothing.",
  ["inputs"], "every requirement of every kind, every amount below two to the thirty-first, both strictness modes",
  "Acceptance is a predicate over a 32-bit amount and three 32-bit bounds; wrong answers can be confined to amounts above the signed range or to empty ranges.",
  M, ["check_manifest_param of each kind"])
p("M05", "A requirement is reported satisfiable, and its maximum found, correctly",
  "A requirement reports itself satisfiable exactly when at least one amount is admitted, and for a satisfiable requirement the reported largest amount is admitted and no larger amount is.",
  ["inputs"], "every requirement of every kind with non-negative bounds and positive step",
  "The answer depends on the residue of the bounds modulo the step, so aligned examples pass with a wrong formula.",
  M, ["is_satisfiable", "max_value_if_sat of each kind"])
p("M06", "Enumerating a requirement visits each admitted amount once, in increasing order",
  "Walking a requirement from its beginning to its end yields exactly the admitted amounts, each once, in increasing order, and always terminates; an unsatisfiable requirement yields nothing.",
  ["inputs"], "every requirement of every kind with non-negative bounds, positive step and last value below the largest representable amount",
  "Skipped or spurious values at the end of a range depend on how the last step meets the bound; tests enumerate three ranges.",
  M, ["begin, end, next of each kind", "manifest_param_iterator::operator++", "manifest_param_iterator::operator*", "manifest_param_iterator::operator!="])
p("M07", "Lookup and constant-column needs combine without losing a hard requirement",
  "Merging the needs of two parts is unsatisfiable if either is, required if either is required, otherwise optional if either is optional, otherwise none. Intersecting with what is offered is unsatisfiable if either side is or if something required is not offered, required if either side requires it, none if either side has none, and optional otherwise; for the constant column the offer is simply present or absent.",
  ["inputs"], "all combinations of need kinds, in both orders",
  "Each function is a chain of branches whose fall-through cases are never exercised by tests of the numeric part.",
  M, ["manifest_lookup_type::intersect", "manifest_lookup_type::merge_with", "manifest_constant_type::merge_with", "manifest_constant_type::intersect"])
p("M08", "A component is admitted exactly when its columns meet its declared needs",
  "A component manifest accepts given column amounts exactly when the witness amount passes the witness requirement and a constant column is present if one is required; it is satisfiable exactly when some column amounts are accepted. Restricting it by the limits a compiler offers admits exactly the witness amounts the component admits that do not exceed the offered maximum, however that maximum was set, and merging two manifests merges both needs.",
  ["inputs", "histories"], "every component manifest, every offered maximum (set at construction or changed later), every pair of column amounts",
  "Agreement between two ways of setting the limit, and between restriction and acceptance, is a statement over all maxima; tests use one or two.",
  M, ["plonk_component_manifest::check_manifest", "plonk_component_manifest::merge_with", "plonk_component_manifest::is_satisfiable", "compiler_manifest::compiler_manifest", "compiler_manifest::set_max_witness_amount", "compiler_manifest::intersect"])
p("M09", "Gate counts add up distinct gate families exactly once",
  "After any sequence of additions and merges, the reported number of gates is the sum of the gate counts of the distinct families added so far, where two families are the same when they have the same type and neither orders before the other. Adding or merging a family already present changes nothing, and a copy reports the same number.",
  ["histories"], "every sequence of additions, merges and copies over any families of gate manifests whose own order is a strict weak order and whose total fits the 32-bit count",
  "The count is a running total kept beside the set it summarises; it drifts only after particular sequences.",
  M, ["gate_manifest::add", "gate_manifest::merge_with", "gate_manifest::calc_gates_amount", "gate_manifest::gate_manifest", "component_gate_manifest_comparison::operator()"],
  state=("gate families and cached total", "the families added so far and the running total reported to callers"))
H = [I + "detail/huang_lu.hpp"]
p("H01", "Packing assigns every task to one of the available agents",
  "For any list of tasks with distinct keys and any positive number of agents, the packing returned assigns every task, and only those tasks, to an agent number below the number of agents. The list handed in still holds the same tasks afterwards.",
  ["inputs"], "every finite list of tasks with distinct keys and sizes whose sum (and twice the lower bound) fits the size type, every agent count of at least one",
  "Random small instances never contain a threshold at which the packing fails to find a place, an all-zero instance, or large sizes.",
  H, ["huang_lu"])
p("H02", "Packing never loads an agent beyond its guaranteed bound",
  "No agent is loaded with twice, or more than twice, the larger of the biggest task and the rounded-up average load per agent (unless every task is empty).",
  ["inputs"], "every finite list of tasks with distinct keys and sizes whose sum (and twice the lower bound) fits the size type, every agent count of at least one",
  "The bound is over all instances; the exhaustive comparison in the tests is limited to tens of tiny instances.",
  H, ["huang_lu"])
p("P01", "The compile-time power function computes repeated multiplication",
  "For every base and every non-negative exponent the power function returns the product of that many copies of the base (one for exponent zero) and terminates. This holds for any associative multiplication with a unit, including wrap-around machine arithmetic.",
  ["inputs"], "every base of every type with an associative multiplication, every non-negative exponent",
  "Square-and-multiply goes wrong only for particular bit patterns of the exponent.",
  ["include/nil/detail/static_pow.hpp"], ["pow"])
Z = [I + "zkevm/zkevm_opcodes.hpp"]
p("Z01", "Each EVM opcode maps to its byte in the EVM specification and back",
  "Every opcode known to the circuit maps to the byte the EVM specification gives it, and every byte that the EVM defines maps back to that opcode, so the two directions are inverse. The number of opcodes reported equals the number of opcodes that can be looked up.",
  ["inputs"], "every opcode and every byte value",
  "No test covers the table; one swapped or repeated byte makes a whole insertion silently vanish.",
  Z, ["opcodes_info::opcodes_info", "opcodes_info::get_opcode_value", "opcodes_info::get_opcode_from_value", "opcodes_info::get_opcodes_amount"])
p("Z02", "Opcode names are printed faithfully and are unambiguous",
  "The text produced for an opcode is its EVM mnemonic, the conversion to a string and the stream output agree, and different opcodes print differently. A value that is no opcode is printed as unknown by the string conversion and produces no mnemonic on a stream.",
  ["inputs"], "every opcode value and every out-of-range value",
  "The switch is generated; a single wrong or missing case shows only when that opcode is printed.",
  Z, ["opcode_to_string", "operator<<(zkevm_opcode)"])
S = [I + "components/hashes/sha2/plonk/detail/split_functions.hpp"]
p("S01", "Splitting a bit string into chunks gives each chunk's dense and spread value",
  "For any bit string, any partition of it into non-empty chunks and any base, splitting returns for each chunk both its ordinary binary value and its value when the same bits are read in the given base, with the first bits of the string going to the last chunk. The chunk values together determine the bit string.",
  ["inputs"], "every bit string, every partition into positive chunk sizes no longer than it, every base from two up",
  "Loop bounds and index offsets are exercised by two fixed partitions in tests that need the full proving library.",
  S, ["split_and_sparse"])
p("S02", "Un-spreading a sum digit by digit recovers the right boolean function",
  "For any value written in the given base with digits below the base and any partition, the reverse split returns for each chunk the spread digits themselves and the dense value whose bits are the parity of the digits. The majority and choose variants return instead the bits obtained by mapping each digit through the majority table (digit at least two) and the choose table (digit in three, five, six) respectively.",
  ["inputs", "histories"], "every base from two up (for majority digits below four, for choose below seven), every partition into positive chunk sizes, every value with that many digits below the field modulus, whatever calls came before",
  "A wrong digit order or one wrong table entry appears only for values with that digit at that position.",
  S, ["reversed_sparse_and_split", "reversed_sparse_and_split_maj", "reversed_sparse_and_split_ch", "cached_pow"])
T = [I + "detail/lookup_table_precomputes.hpp", I + "detail/lookup_table_loaders.hpp"]
p("T01", "Embedded spread tables hold the right value in every row",
  "Each embedded lookup table declares as many rows as it has and covers every value it is meant to cover exactly once; every row pairs the bits of a digit string with that digit string in the table's base. Loading a table by its name yields exactly those two columns, and an unknown name is refused.",
  ["inputs"], "every row of every embedded table and every table name",
  "The tables hold about a hundred thousand rows of literal text; a wrong digit in one row is caught by no test here.",
  T, ["_8_SPLIT_4", "_8_SPLIT_7", "load_lookup_table_from_bin", "parse_lookup_table"])
p("T02", "Text lookup tables load column by column or are refused",
  "Loading a text table returns, for each row and column, the hexadecimal number written there, with as many columns and rows as asked for and declared. A row from which the demanded numbers cannot be read makes the load report failure, and of several candidate files the first readable one that parses is used.",
  ["inputs"], "every well-formed table text and every row from which the numbers cannot be read",
  "Transposed or dropped cells depend on the shape of the table; tests load only the embedded square-free shapes.",
  T, ["parse_lookup_table", "load_lookup_table", "value_vector_parser"])
F = I + "components/algebra/fields/plonk/"
NN = F + "non_native/"
comp_why = "Circuit tests run the honest prover on a few inputs; that a dishonest assignment is impossible, and that the honest one always satisfies, is a statement over all field elements."
cinp = "every field element (or field configuration stated) for the inputs, every assignment of the remaining cells, every prime field large enough for the bit sizes involved"
p("C01", "Field arithmetic gadgets accept exactly the right result",
  "For addition, subtraction, multiplication, multiplication by a constant, division and division-or-zero gadgets, the values the gadget fills in satisfy its constraints for all inputs, and any assignment satisfying the constraints has the output cell equal to the stated function of the inputs. Division accepts only a non-zero divisor.",
  ["inputs"], cinp, comp_why,
  [F + x + ".hpp" for x in ("addition", "subtraction", "multiplication", "multiplication_by_constant", "division", "division_or_zero")],
  ["generate_assignments", "generate_gates", "generate_copy_constraints", "result_type"])
p("C02", "Boolean and equality gadgets accept exactly the right flag",
  "For the not, and, or, xor, nand, nor gadgets, the logical and/or of field elements, and the equality and inequality flags, the filled-in values satisfy the constraints and every satisfying assignment gives the output the value of the stated boolean function.",
  ["inputs"], cinp, comp_why,
  [NN + "logic_ops.hpp", F + "logic_and_flag.hpp", F + "logic_or_flag.hpp", NN + "equality_flag.hpp"],
  ["generate_assignments", "generate_gates", "generate_copy_constraints"])
p("C03", "Interpolation gadgets find the polynomial through the points",
  "The linear and quadratic interpolation gadgets fill in values that satisfy their constraints for all points with distinct abscissas, and every satisfying assignment has as output the coefficients of the polynomial passing through the given points. Points with equal abscissas are not accepted.",
  ["inputs"], cinp, comp_why,
  [F + "linear_interpolation.hpp", F + "quadratic_interpolation.hpp"],
  ["generate_assignments", "generate_gates", "generate_copy_constraints"])
FL = I + "components/systems/snark/plonk/flexible/"
PH = I + "components/systems/snark/plonk/placeholder/"
p("C04", "Batched and fixed-power gadgets accept exactly the right results",
  "The conditional swap, the batched addition and multiplication gadgets and the gadget raising to a fixed power fill in values that satisfy their constraints, and every satisfying assignment has every output equal to the stated function of the inputs, for every number of columns and of elements they are configured with. The swap accepts only a bit as its control.",
  ["inputs", "configurations"], cinp + "; the numbers of columns, elements and exponents", comp_why + " Row and column arithmetic goes wrong only for particular sizes.",
  [FL + x + ".hpp" for x in ("swap", "additions", "multiplications", "constant_pow")],
  ["generate_assignments", "generate_gates", "generate_copy_constraints", "result_type"])
p("C05", "Proof-checking gadgets compute exactly the checker's equations",
  "The gadgets a proof checker is assembled from (polynomial evaluation, folding of two points, array swap, and the permutation, gate and lookup arguments with their partial products and sums) fill in values that satisfy their constraints, and every satisfying assignment has each output equal to the stated polynomial of the inputs, for every number of columns and elements they are configured with.",
  ["inputs", "configurations"], cinp + "; the numbers of columns, elements, gates and tables", comp_why + " A row left unconstrained for one width lets a false proof through and shows in no honest run.",
  [FL + "pow_factor.hpp"] + [PH + x + ".hpp" for x in ("fri_lin_inter", "fri_array_swap", "permutation_argument_verifier", "gate_argument_verifier", "lookup_argument_verifier", "detail/gate_component", "detail/f1_loop", "detail/f3_loop")],
  ["generate_assignments", "generate_gates", "generate_copy_constraints", "result_type"])
p("K01", "Identical gates share a selector and different gates never do",
  "Adding a gate whose constraints were added before, in whatever order or form of call, returns the selector handed out the first time and does not grow the circuit; adding a gate with different constraints returns a fresh selector and records all its constraints. Selector numbers follow the order of first addition.",
  ["histories"], "every sequence of gate additions",
  "Sharing goes wrong only for particular interleavings of equal and different gates.",
  [I + "blueprint/plonk/circuit.hpp", I + "gate_id.hpp"], ["circuit::add_gate", "gate_id"], state=("gate list and gate map", "gates added so far, with the selector each distinct gate got"))
p("K02", "Satisfiability checking accepts an assignment exactly when all constraints hold",
  "The checker answers yes for a circuit and an assignment exactly when, on every row a gate is enabled on, all the gate's constraints evaluate to zero, every lookup input row is in its table, and both sides of every copy constraint hold equal values.",
  ["inputs", "histories"], "every circuit and every assignment table",
  "A checker that skips rows or constraints makes every other test pass vacuously.",
  [I + "utils/satisfiability_check.hpp"], ["is_satisfied", "load_dynamic_lookup"])
p("Z03", "Splitting and rebuilding EVM words is lossless",
  "A 256-bit word split into 16-bit chunks and rebuilt is unchanged, each chunk is below two to the sixteenth, and the chunks are ordered from least significant to most significant. Stack push and pop follow last-in first-out order.",
  ["inputs", "histories"], "every 256-bit word; every sequence of pushes and pops",
  "Carry or order errors depend on the bits of the word.",
  [I + "zkevm/zkevm_word.hpp", I + "zkevm/stack.hpp"], ["zkevm_word_to_field_element", "chunk_64_to_16", "zwordc", "zkevm_stack::push", "zkevm_stack::pop", "zkevm_stack::swap", "zkevm_stack::dup"])
p("L01", "Built-in lookup tables hold exactly the rows of their relation",
  "Every built-in lookup table, once reserved, holds exactly the rows of the relation it is named for: byte and 16-bit ranges, exclusive or, conjunction, opcodes with their push size, spread and reverse-spread forms of words, majority and choice. Each named part has the right columns and covers all rows, and nothing that was not reserved is reported.",
  ["inputs", "configurations"], "every row of every built-in table, every named part",
  "A wrong or missing row among millions is met only by the one input that needs it, and a surplus row only by a dishonest prover.",
  [I + "lookup_library.hpp", I + "components/hashes/sha2/plonk/detail/split_functions.hpp", I + "detail/lookup_table_loaders.hpp"], ["lookup_library::reserve_table", "lookup_library::get_reserved_tables", "lookup_table_definition::generate"])
Z = I + "zkevm/"
p("Z04", "EVM addition, subtraction, multiplication and zero test accept only the result",
  "In the EVM circuit, the rows of an ADD, SUB, MUL or ISZERO step whose words are held in 16-bit parts meet the constraints only if the result is the one the EVM defines for the operands, modulo two to the 256th. What the circuit fills in for any operands meets every constraint, whichever operations come before and after.",
  ["inputs", "histories"], "every pair of 256-bit operands, every content of the cells of a step with 16-bit parts, every neighbouring operation",
  "A constraint that is too weak rejects no honest trace, and a wrong carry shows only for operands that produce it in that part of the word.",
  [Z + "zkevm_circuit.hpp", Z + "operations/add_sub.hpp", Z + "operations/mul.hpp", Z + "operations/iszero.hpp", Z + "state_selector.hpp", Z + "zkevm_word.hpp"], ["generate_gates", "generate_assignments", "zkevm_circuit::assign_opcode", "zkevm_circuit::advance_rows", "zkevm_circuit::get_opcode_row_constraint", "zkevm_circuit::init_opcodes"])
p("Z05", "EVM division accepts only the quotient",
  "In the EVM circuit, the rows of a DIV step whose words are held in 16-bit parts meet the constraints only if the result is the whole part of the quotient of the operands, or zero when the divisor is zero. What the circuit fills in for any operands meets every constraint, whichever operations come before and after.",
  ["inputs", "histories"], "every pair of 256-bit operands, every content of the cells of a step with 16-bit parts, every neighbouring operation",
  "A prover chooses the quotient, the remainder and the carries; a missing condition on them rejects no honest trace, and only a forged one shows it.",
  [Z + "operations/div.hpp", Z + "zkevm_circuit.hpp", Z + "state_selector.hpp", Z + "zkevm_word.hpp"], ["generate_gates", "generate_assignments", "zkevm_circuit::assign_opcode", "zkevm_circuit::get_opcode_row_constraint"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
