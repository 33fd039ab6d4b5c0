"""Which contracts decide which property, and which native oracle replays a counterexample."""
K = 'uvrs'
PAIRS = [(a, b) for a in K for b in K]
SYM = [(a, b) for i, a in enumerate(K) for b in K[i:]]

def jobs(fn, args): return [(fn, a) for a in args]

PROPS = {
    'M01': dict(driver='manifest', spec='spec_manifest', jobs=jobs('M01', [[p] for p in PAIRS]), oracle='manifest_oracle'),
    'M02': dict(driver='manifest', spec='spec_manifest', jobs=jobs('M02', list(K)), oracle='manifest_oracle'),
    'M03': dict(driver='manifest', spec='spec_manifest', jobs=jobs('M03S', [[p] for p in reversed(SYM)]) + jobs('M03', [[p] for p in PAIRS]), oracle='manifest_oracle'),
    'M04': dict(driver='manifest', spec='spec_manifest', jobs=jobs('M04', list(K)), oracle='manifest_oracle'),
    'M05': dict(driver='manifest', spec='spec_manifest', jobs=jobs('M05', list(K)), oracle='manifest_oracle'),
    'M06': dict(driver='manifest', spec='spec_manifest', jobs=jobs('M06', list(K)), oracle='manifest_oracle'),
    'M07': dict(driver='manifest', spec='spec_manifest', jobs=[('M07', None)], oracle='manifest_oracle'),
    'M08': dict(driver='manifest', spec='spec_manifest', jobs=[('M08', None)], oracle='manifest_oracle',
                assumptions=['a witness requirement behaves as M01, M03, M04 and M05 state (proved there for the four kinds)']),
    'M09': dict(driver='manifest', spec='spec_manifest', jobs=[('M09', None)], oracle='gates_oracle'),
    'H01': dict(driver='huang_lu', spec='spec_pack', jobs=[('H01', None)], oracle='pack_oracle'),
    'H02': dict(driver='huang_lu', spec='spec_pack', jobs=[('H02', None)], oracle='pack_oracle'),
    'P01': dict(driver='power', spec='spec_pow', jobs=jobs('P01', ['u64', 'u32', 'u16', 'i32', 'i64']), oracle='pow_oracle'),
    'Z01': dict(driver='opcodes', spec='spec_opcodes', jobs=[('Z01', None)], oracle='opcodes_oracle', std=('std2', 'std'), flags=['-fno-threadsafe-statics']),
    'Z02': dict(driver='opcodes', spec='spec_opcodes', jobs=[('Z02', None)], oracle='opcodes_oracle', std=('std2', 'std'), flags=['-fno-threadsafe-statics']),
    'S01': dict(driver='split', spec='spec_split', jobs=[('S01', None)], oracle='split_oracle', std=('std2', 'std'), flags=['-fno-threadsafe-statics']),
    'S02': dict(driver='split', spec='spec_split', jobs=jobs('S02', ['vf_rev', 'vf_rev_maj', 'vf_rev_ch']), oracle='split_oracle', std=('std2', 'std'), flags=['-fno-threadsafe-statics'],
                assumptions=['the powers of the base that are needed, and the value split, are below the field modulus (the quantifier)']),
    'T01': dict(driver='tables', spec='spec_tables', jobs=jobs('T01', ['8_split_4', '8_split_7', '']), oracle='tables_oracle', std=('std3', 'std2', 'std'), flags=['-fno-threadsafe-statics'],
                assumptions=['the function that reads a text behaves as T02 states (proved there)', 'the strings the second table is for: those of the rotations by 6, 11 and 25 of SHA-256']),
    'T02': dict(driver='tables', spec='spec_tables', jobs=jobs('T02', [8, 61, 254, 255, 256, 381]) + jobs('T02L', [8, 61, 254, 255, 256, 381]), oracle='tables_oracle', std=('std3', 'std2', 'std'), flags=['-fno-threadsafe-statics'],
                assumptions=['the first line of a text is a number', 'Boost.Spirit reads a row by the grammar the code builds: so many numbers, in that radix, with so many digits at least and at most']),
}

UNB = 'All obligations are discharged for all inputs and all iterations, without a bound; the native search is a cross-check only. '
for _p, _n in {
    'M01': UNB + 'Products of starts, steps and Bezout coefficients are assumed to fit the integer type (the quantifier); boost extended_euclidean and the std::set interface are assumed under contract.',
    'M02': UNB + 'The std::set interface and whole-set algorithms are assumed under contract.',
    'M03': UNB + 'The std::set interface is assumed under contract; an amount plus a step fits the signed integer type (the quantifier).',
    'M04': UNB + 'Amounts below 2^31 (the quantifier).',
    'M05': UNB, 'M06': UNB + 'Iterators are followed through the real begin, end, ++, * and != of the base class.',
    'M07': UNB + 'The need kinds are symbolic.',
    'M08': UNB + 'The witness requirement is any object that satisfies the contracts of M01, M03, M04 and M05 (modular: caller against callee contract).',
    'M09': UNB + 'One object invariant (total = sum over the families held) is shown to be established and preserved by every operation; families are known by their class under the comparator, which is shown to be a strict weak order.',
    'H01': UNB + 'Three nested loops by inferred invariants (placed or still waiting, agent numbers, amounts placed, pigeonhole over full agents); termination included. The lists have fewer than 2^32 tasks; std::list and std::unordered_map are assumed under contract.',
    'H02': UNB + 'The load of an arbitrary agent is a ghost sum that follows each placement; the bound follows from the pigeonhole invariant. Same assumptions as H01.',
    'P01': UNB + 'The base is an element of an arbitrary monoid; the loop invariant is that what is multiplied so far times the current base to the exponent left is the answer. Exponents are the five integer types used.',
    'Z01': 'Every opcode of the EVM table, every byte of it, and an arbitrary opcode after earlier lookups: the table construction is executed symbolically in full (finite, complete), with boost::bimap under contract. The table of the EVM specification is written down in native/evm_opcodes.inc.',
    'Z02': 'Every opcode and every other value of the type: the real printing and table code is executed in full (finite, complete); std::string and the stream are assumed under contract.',
    'S01': UNB + 'Whole numbers are unbounded (the quantifier: values fit the field); std::vector is assumed under contract. The partition and the digits are arbitrary; both loops by inferred invariants.',
    'S02': UNB + 'Whole numbers are unbounded and the powers asked for are below the modulus (the quantifier; each power requested is shown to be one of those). The table of powers kept between calls is covered by an invariant: first call and call after any other calls.',
    'T01': 'Finite and complete: every row of both texts, as they are compiled, against the digit strings meant; an arbitrary other name is refused. The reading of a text is by the contract of T02 (modular: caller against callee contract).',
    'T02': UNB + 'Any text, any number of rows and columns, any set of candidates; fields of 8, 61, 254, 255, 256 and 381 bits. The stream, std::vector and std::set interfaces and the parser library are assumed under contract; the grammar handed to it is obliged to read every number of the field.',
}.items(): PROPS[_p]['note'] = _n

NOTES = 'See DESIGN.md. Every run extracts the functions from the working tree of /repo, generates the obligations, discharges them, and replays countermodels on the natively compiled code. Known and repaired defects are in known-findings.txt.'
NA = {}

# native oracles: source, extra flags
ORACLES = {
    'tables_oracle': dict(src='native/tables_oracle.cpp', flags=['-D_GLIBCXX_DEBUG']),
    'pow_oracle': dict(src='native/pow_oracle.cpp', flags=['-fsanitize=undefined', '-fno-sanitize=unsigned-integer-overflow', '-fsanitize-trap=all']),
    'opcodes_oracle': dict(src='native/opcodes_oracle.cpp', flags=['-D_GLIBCXX_DEBUG']),
    'split_oracle': dict(src='native/split_oracle.cpp', flags=['-D_GLIBCXX_DEBUG']),
    'pack_oracle': dict(src='native/pack_oracle.cpp', flags=['-D_GLIBCXX_DEBUG', '-fsanitize=undefined', '-fno-sanitize=unsigned-integer-overflow', '-fsanitize-trap=undefined']),
    'gates_oracle': dict(src='native/gates_oracle.cpp', flags=['-fsanitize=undefined', '-fsanitize-trap=all']),
    'manifest_oracle': dict(src='native/manifest_oracle.cpp', flags=['-D_GLIBCXX_DEBUG', '-fsanitize=signed-integer-overflow,integer-divide-by-zero', '-fsanitize-trap=all']),
}
def gadgets(names, src):
    for n in names: ORACLES['gadgets_' + n] = dict(src=src, flags=['-Inative/crypto3', '-DVF_' + n])
gadgets(['C01', 'C02', 'C03', 'C04'], 'native/gadgets_c.cpp')
gadgets(['C05'], 'native/gadgets_v.cpp')
CIRCUIT_TRUST = ['clang 18 (the real component, circuit and assignment headers are compiled as they are)', 'native/crypto3 (stand-ins for the variables, expressions, constraints and tables of crypto3)',
                 'native/fields.hpp, native/gadgets.hpp (polynomials as field elements; enumeration of the answers to questions asked of them)', 'vc/algebra.py, vc/circuits.py (obligations; substitution, factoring and checked certificates)', 'sympy (factors are multiplied out again)']
CIRCUIT_TECHNIQUE = 'contract-based deductive verification: the real gadget code is executed symbolically (field elements are polynomials); what its gates and copies demand and what it fills in on every path become obligations against the stated contract, discharged by polynomial refutation with checked certificates'
CIRCUIT_NOTE = 'The real gadget code is executed with polynomials in place of field elements, so the gates, copy constraints and filled-in cells it produces are obtained for all inputs at once, on every path; each obligation is a refutation with a checked certificate, valid in every prime field except the primes named in the evidence. Placement is covered for two layouts (first rows with columns in order; row 3 with columns reversed) and the listed sizes. crypto3 itself is replaced by stand-ins of the same meaning.'
for _p in ('C01', 'C02', 'C03', 'C04', 'C05'):
    PROPS[_p] = dict(custom='circuits', technique=CIRCUIT_TECHNIQUE, oracle='gadgets_' + _p, trusted=CIRCUIT_TRUST, note=CIRCUIT_NOTE, assumptions=['cells hold elements of one prime field', 'a gadget is put at row 0 with its columns in order, or at row 3 with its columns reversed'])

for _p in ('K01', 'K02'): ORACLES['kernel_' + _p] = dict(src='native/kernel.cpp', flags=['-Inative/crypto3', '-DVF_' + _p])
PROPS['K02'] = dict(custom='kernel', level='other', technique=CIRCUIT_TECHNIQUE.replace('gadget code', 'checker'), oracle='kernel_K02', trusted=CIRCUIT_TRUST, functions=['is_satisfied (both overloads), load_dynamic_lookup, var_value'],
    note='BOUNDED in shape, not counted as proved. The real checker is executed on circuits of 20 listed shapes with every cell and selector unknown; on each path the answer is proved right from the questions the path asked. Bounded in the shape (rows, gates, tables), not in the values. crypto3 is replaced by stand-ins of the same meaning.',
    assumptions=['cells hold elements of one prime field', 'bounded: circuits of the listed shapes (up to 6 rows, 4 gates, 3 constraints, 6 copies, tables of 4 rows); values arbitrary', 'rows a neighbouring-row reference falls off are not enabled'])
PROPS['K01'] = dict(custom='kernel', level='other', technique=CIRCUIT_TECHNIQUE.replace('gadget code', 'gate registration code'), oracle='kernel_K01', trusted=CIRCUIT_TRUST, functions=['add_gate, add_lookup_gate (all overloads), get_dynamic_lookup_table_selector, get_next_selector_index, gate_id, lookup_gate_id, value_set'],
    note='BOUNDED in the histories, not counted as proved. The real registration code is executed with independent unknowns in place of its random points, so two gates are told apart exactly when their comparison values are different polynomials: the answer for all draws but a negligible share. Bounded in the histories: every step of the listed ones (pairs and triples of constraints in all orders, up to 45 constraints, every kind of column and neighbouring row, lookups, mixed histories).',
    assumptions=['the random points the code draws avoid the zeros of finitely many nonzero polynomials (probability at most degree / field size)', 'no constraint is identically zero', 'bounded: the listed histories, about 5000 steps; columns up to 21'])

ORACLES['word_oracle'] = dict(src='native/word_oracle.cpp', flags=['-Inative/words', '-D_GLIBCXX_DEBUG', '-Xclang', '-fexperimental-max-bitint-width=1024'])
PROPS['Z03'] = dict(driver='word', spec='spec_word', jobs=jobs('Z03S', ['word', '64', 'make']) + jobs('Z03K', ['push', 'pop', 'top', 'swap', 'dup', 'new']), oracle='word_oracle', std=('std4', 'std2', 'std'), flags=['-fno-threadsafe-statics'],
    note=UNB + 'Every word and every 64-bit value (the sixteen and four rounds are executed in full); a stack of any height with any words on it. The word types of crypto3 and std::stack are assumed under contract (whole numbers with a modulus; an array with the top at its end).',
    assumptions=['operations that need a word or two on the stack are called with that many on it'])

ORACLES['library_oracle'] = dict(src='native/library_oracle.cpp', flags=['-Inative/crypto3'])
PROPS['L01'] = dict(driver='library', spec='spec_library', jobs=jobs('L01', __import__('library_names').NAMES), oracle='library_oracle', std=('std5', 'std3', 'std2', 'std'), flags=['-fno-threadsafe-statics'],
    note=UNB + 'Each table is reserved through the public interface and filled by the real code; its filling loop is cut by an invariant (row by row equal to the relation), so 5764801 rows cost as much as 256. The splitting functions and the embedded tables are used through their contracts (S01, S02, T01). The table definitions of crypto3 are replaced by stand-ins of the same meaning.',
    assumptions=['the splitting functions and the loader of embedded tables keep their contracts (checked as S01, S02, T01)', 'numbers up to seven to the eighth are below the modulus of the field'])

ORACLES['evm'] = dict(src='native/evm.cpp', flags=['-Inative/evm', '-Inative/crypto3', '-Xclang', '-fexperimental-max-bitint-width=1024'])
EVM_TRUST = ['clang 18 (the real circuit, operation, state and word headers are compiled as they are)', 'native/crypto3 (stand-ins for the variables, expressions, constraints and tables of crypto3)',
             'native/evm (stand-ins for the number types: wide integers, or formulas over unknown words), native/evm.cpp (enumeration of the answers to questions asked of formulas)', 'vc/evm.py (obligations)', 'z3 (linear arithmetic over the whole numbers)', 'sympy (factors of polynomials in at most three unknowns)']
PROPS['Z04'] = dict(custom='evm', ops=['MUL', 'ADD', 'SUB', 'ISZERO'], technique='contract-based deductive verification: the real circuit is built and filled in symbolically (words are unknown); what the constraints on the rows of an operation demand, and what is filled in on every path, become obligations over whole numbers against the meaning of the operation, discharged by z3', oracle='evm', trusted=EVM_TRUST,
    functions=['zkevm_circuit (constructor, init_state, init_opcodes, generate_generic_transition_constraints, get_opcode_row_constraint, assign_opcode, advance_rows, finalize)', 'selector_manager', 'state_selector (generate_constraints, option_constraint, generate_assignments)', 'zkevm_add_sub_operation, zkevm_mul_operation, zkevm_iszero_operation (generate_gates, generate_assignments, rows_amount)', 'zkevm_word_to_field_element, chunk_64_to_16', 'zkevm_state, state_var'],
    note='The real circuit is run with unknown words. Soundness: the constraints that are on in the rows of the operation are taken as polynomials in its cells; with 16-bit cells in their range they are equations over the whole numbers, and no content of the cells other than the right result meets them. Completeness: on every path of the filling code every constraint of every row vanishes. Three placements (alone, between two other operations, after a one-row operation and before another step of its kind). Words of any value. The field is that of alt_bn128, as in the repository. crypto3 is replaced by stand-ins of the same meaning.',
    assumptions=['cells that hold 16-bit parts hold numbers below 2^16 (the repository leaves the range checks to the memory circuit)', 'the cells that tell the operation and its rows apart are as the circuit fills them in', 'the field is the base field of alt_bn128', 'placements: alone; after MUL and before DIV, from row 4; after DIV and ISZERO and before another step of the same kind'])
PROPS['Z05'] = dict(custom='evm', ops=['DIV'], level='other', technique='contract-based deductive verification: the constraints on the rows of a division, taken from the real circuit as polynomials in its cells, must imply the clauses of the contract, discharged by z3; filling in is bounded: checked on chosen and random operands', oracle='evm', trusted=EVM_TRUST,
    functions=['zkevm_div_operation (generate_gates; generate_assignments on the listed paths)', 'zkevm_circuit, state_selector, selector_manager as in Z04'],
    note='Discharged by z3 from the real constraints, for all cells in three placements: quotient times divisor plus remainder is the dividend (whole numbers), the remainder is below the divisor, division by zero gives zero. What is filled in: the filling code asks about every part of its operands (more than 2^16 paths); it is followed along the paths of sixteen pairs of operands, and on each of these every constraint of every row is discharged for all operands that take the path. The other paths are checked on special and random operands only: bounded, not counted as proved.',
    assumptions=PROPS['Z04']['assumptions'])
