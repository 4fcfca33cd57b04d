"""Property texts; tools/props.py turns them into properties.jsonl and MANIFEST.json."""
HOOKS = None
NA = {
 "C11": "not encoded: the rounds rest on some 260 lookup references per circuit into large tables, which the lookup reasoning was not extended to; no attempt at a verdict was made, only the word splitting functions are decided",
 "C33": "not encoded: the gadgets include crypto3's R1CS headers, among them nil/crypto3/zk/blueprint/r1cs.hpp, which are not installed; stand-ins exist for PLONK only, and none of the repository's R1CS tests is enabled",
 "C35": "not encoded: the limb products modulo 2^255 - 19, on which point operations and signatures rest, were not attempted; sums and differences (C07) already needed integers around the modulus",
 "C37": "not encoded: several of these headers include nil/crypto3/zk/blueprint/plonk.hpp and kimchi types by paths that are not installed; no stand-ins were written and no attempt at a verdict was made",
}
B = "include/nil/blueprint/"
P = [
dict(id="C01", title="Field arithmetic circuits compute and enforce sum, difference, product, quotient",
  statement="For all operands the circuits for addition, subtraction, multiplication, multiplication by a constant, division and division-or-zero fill the table so that every generated constraint holds and the output cell carries the mathematically right value (zero for division-or-zero by zero). Conversely the constraints admit no other output: whatever a prover writes in the witness cells, if all constraints hold the output is the right value, and plain division by zero is unsatisfiable. The plain calculation function and the dry run agree with the circuit, and rows and gates are as many as declared.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every pair of field elements, every content of the witness cells"},
  why="Tests feed a handful of random operands and honest witnesses only; they never look for a second witness, and special operands (zero) have their own branch.",
  files=[B + "components/algebra/fields/plonk/" + f + ".hpp" for f in ("addition", "subtraction", "multiplication", "multiplication_by_constant", "division", "division_or_zero")], mechanism=[("assignment", "generate_assignments of the six components"), ("constraints", "generate_circuit, generate_gates, generate_copy_constraints of the six components")],
  note="Assignment and constraint generation are executed with symbolic field elements; equalities are decided over the prime field, and uniqueness of the output over two copies of the open witness cells."),
dict(id="C02", title="Exponentiation circuits compute the power and admit no other",
  statement="For every base and every exponent that fits the declared number of bits, the exponentiation circuit yields base^exponent and fills the table so that every constraint holds. No other content of the witness cells satisfies the constraints with another result.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every base, exponents within the bit bounds, every column order, every content of the witness cells"},
  why="Tests run a few bases and exponents with honest witnesses in the natural column order.",
  files=[B + "components/algebra/fields/plonk/exponentiation.hpp"], mechanism=[("assignment and constraints", "exponentiation.hpp")],
  note="Exponents of 255 bits admit e + p as well; recorded as a known finding."),
dict(id="C03", title="Logic gates and equality flags compute and enforce their truth tables",
  statement="Not, and, or, xor, nand and nor of bits, the selection of one of two elements by a bit, the conjunction and disjunction flags of field elements (zero is false, anything else true) and the equality and inequality flags fill the table so that every generated constraint holds and the output carries the value of the truth table. The constraints admit no other output for the same inputs, whatever the witness cells hold, in every supported width.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every pair of inputs, every content of the witness cells, every supported width"},
  why="A flag constraint that lost one factor still accepts every honest witness, so tests with honest witnesses pass while a prover can claim a false flag.",
  files=[B + "components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp", B + "components/algebra/fields/plonk/logic_and_flag.hpp", B + "components/algebra/fields/plonk/logic_or_flag.hpp", B + "components/algebra/fields/plonk/non_native/logic_ops.hpp", B + "components/algebra/fields/plonk/non_native/equality_flag.hpp"], mechanism=[("assignment and constraints", "generate_assignments, generate_gates, generate_copy_constraints of the flag and logic components")],
  note="Assignment and constraint generation are executed with symbolic field elements; uniqueness is decided over two copies of the open witness cells."),
dict(id="C04", title="Bit decomposition, composition and shifts are exact and enforced",
  statement="Decomposing a number of n bits places exactly its bits, in the requested order, in the output cells; composing bits yields the number they spell; shifting left or right by a constant yields the shifted number. The filled table satisfies every generated constraint, and the constraints admit only bits in bit positions (when checked) and no other output for the same input, whatever the witness cells hold, for every number of bits the component supports and every supported width.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every number and bit string, every content of the witness cells, bit counts around every row boundary up to the field size"},
  why="Layout arithmetic (which bit lands in which cell) changes at row boundaries that the few tested sizes do not all reach, and no test tries a dishonest decomposition.",
  files=[B + "components/algebra/fields/plonk/non_native/bit_decomposition.hpp", B + "components/algebra/fields/plonk/non_native/bit_composition.hpp", B + "components/algebra/fields/plonk/non_native/detail/bit_builder_component.hpp", B + "components/algebra/fields/plonk/bit_shift_constant.hpp"], mechanism=[("assignment, layout and constraints", "bit_builder_component, bit_decomposition, bit_composition, bit_shift_constant")],
  note="The bits are symbolic; the equalities are decided over the prime field as linear forms of the bits, uniqueness over the open witness cells."),
dict(id="C05", title="Range checks and comparisons accept exactly the numbers they describe",
  statement="A range check of n bits is satisfiable exactly for numbers below 2^n. The comparison circuits are satisfiable exactly when the chosen relation (less, less or equal, greater, greater or equal) holds between numbers that fit, and the comparison flag yields 1 exactly when it holds (also for equal and not equal), with no other flag admitted by the constraints. The checked forms refuse numbers that do not fit.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every pair of numbers, every relation, every supported width, bit counts around every chunk and row boundary, every content of the witness cells"},
  why="The chunk layout depends on bit count and width together; first chunk, padding and bonus-row cases each occur for a few combinations only, and a missing chunk constraint is invisible to honest witnesses.",
  files=[B + "components/algebra/fields/plonk/" + f + ".hpp" for f in ("range_check", "non_native/comparison_unchecked", "non_native/comparison_checked", "non_native/comparison_flag")] + [B + "components/algebra/fields/plonk/non_native/comparison_mode.hpp"], mechanism=[("assignment, chunk layout and constraints", "range_check, comparison_unchecked, comparison_checked, comparison_flag")],
  note="Two genuine defects of comparison_checked are recorded; one of comparison_flag was repaired."),
dict(id="C06", title="Integer division yields quotient and remainder and enforces them",
  statement="For every dividend and every divisor above zero that fit the given number of bits, the division circuit yields the integer quotient and remainder and fills the table so that every constraint holds. The constraints bound the quotient (and the operands when input checks are requested) to the given number of bits and admit no other remainder.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every dividend and divisor within the bit bounds, every supported width, every content of the witness cells"},
  why="Tests use random operands with honest witnesses; the range checks that make the division sound never matter for them.",
  files=[B + "components/algebra/fields/plonk/non_native/division_remainder.hpp"], mechanism=[("assignment and constraints", "division_remainder with its embedded range checks")],
  note="Two genuine defects (remainder equal to the divisor, negative remainder) are recorded."),
dict(id="C07", title="Ed25519 limb circuits compute and accept every valid operand",
  statement="Over the smaller circuit field, numbers modulo 2^255 - 19 are held in four limbs. For operands below the modulus, addition and subtraction yield the reduced sum or difference and their constraints hold, including every carry and borrow between limbs; the range check accepts every number below the modulus; scalars are split into chunks that spell them; multiplying a point by a bit yields the point or the neutral element and admits nothing else, and refuses multipliers other than zero and one. All of this in whichever columns the circuit is given.",
  over=["inputs", "adversarial witnesses"], **{"for": "every operand within the bounds, column orders out of sequence, every content of the witness cells of a bit multiplication"},
  why="Tests draw random operands, which never meet the rare borrow, and hand out columns in order.",
  files=[B + "components/algebra/fields/plonk/non_native/addition.hpp", B + "components/algebra/fields/plonk/non_native/subtraction.hpp", B + "components/algebra/fields/plonk/non_native/range.hpp", B + "components/algebra/curves/edwards/plonk/non_native/bool_scalar_multiplication.hpp", B + "components/algebra/curves/edwards/plonk/non_native/scalar_non_native_range.hpp"],
  mechanism=[("values", "generate_assignments of each circuit"), ("constraints", "generate_gates and generate_copy_constraints of each circuit")],
  note="Two defects were repaired: fixed column numbers, and a borrow the carry could not express. The multiplication, doubling and addition of points are not covered."),
dict(id="C08", title="Pasta point addition and endomorphism scalars are computed and enforced",
  statement="The addition circuit yields the group sum of two Pallas points in every case (distinct, equal, opposite, one or both zero) and satisfies its constraints; nothing else does. The endomorphism scalar circuit maps a 128-bit challenge to a * endo_r + b by the crumb rule, endo_r being a primitive cube root of one; its constraints admit only this result and only challenges that fit.",
  over=["inputs", "adversarial witnesses"], **{"for": "every pair of points, 128-bit challenges within the bounds, every content of the witness cells"},
  why="Tests add random points and never the special pairs with a dishonest witness; an accumulator without a fixed start passes all of them.",
  files=[B + "components/algebra/curves/pasta/plonk/unified_addition.hpp", B + "components/algebra/curves/pasta/plonk/endo_scalar.hpp"], mechanism=[("assignment and constraints", "unified_addition.hpp, endo_scalar.hpp")],
  note="The starting values of endo_scalar were unconstrained; repaired."),
dict(id="C09", title="Poseidon circuits compute the permutation in every layout and enforce it",
  statement="For every input state the fixed and the flexible Poseidon circuits yield the Poseidon permutation of it (x^7, 55 rounds, the MDS matrix and constants of Kimchi), whatever the number of columns, and satisfy their constraints. The constraints determine the output.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every state of three field elements, every layout listed, wherever the circuit is placed, every content of the witness cells"},
  why="Tests hash a few inputs with the circuit alone in the table.",
  files=[B + "components/hashes/poseidon/plonk/poseidon.hpp", B + "components/systems/snark/plonk/flexible/poseidon.hpp"], mechanism=[("rounds", "generate_assignments and generate_gates of both circuits")],
  note="The flexible circuit enabled the selectors 0, 1, 2... rather than its own; repaired."),
dict(id="C10", title="SHA-2 words split into chunks and sparse form and back without loss",
  statement="Splitting a word into chunks of given sizes yields, for every chunk (lowest bits first), exactly the slice of the word it names, together with the sparse number that has these bits as its digits in the given base. Splitting a sparse number back yields for every chunk the digits it holds and the bits they stand for: the parity of a digit for the sigma functions, the majority of the three operand bits added up for maj, and the choice between the second and third operand bit by the first for ch (encoded as e + 2f + 3g).",
  over=["inputs"], **{"for": "every 32-bit and 64-bit word and every operand triple, in the chunk sizes and bases the SHA-256 and SHA-512 circuits use, and small chunk sizes in every base up to 16"},
  why="Existing tests run whole hashes on a few messages; a digit handled wrongly in one position or for one operand combination only changes the hash of some messages.",
  files=[B + "components/hashes/sha2/plonk/detail/split_functions.hpp"], mechanism=[("chunk splitting", "split_and_sparse, reversed_sparse_and_split, reversed_sparse_and_split_maj, reversed_sparse_and_split_ch, cached_pow in split_functions.hpp")],
  note="The real functions are executed with symbolic bits and digits; integers are compared as linear forms over them."),
dict(id="C12", title="Interpolation and FRI folding steps are computed and enforced",
  statement="The interpolation circuits yield the line or parabola through the given points and refuse points above each other; the folding circuit yields the value at alpha of the line through (s, y0) and (-s, y1). The exchange circuit swaps the members of each pair exactly when its bit is set. The coset circuit yields omega^(x mod 2^n), its squares, their negatives and the order bits for the canonical index x alone.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every point, value and bit, the indices listed, every supported width listed, every content of the witness cells"},
  why="Tests use a few random values; a second satisfying witness or a wrong sign in one row stays unseen.",
  files=[B + "components/algebra/fields/plonk/linear_interpolation.hpp", B + "components/algebra/fields/plonk/quadratic_interpolation.hpp", B + "components/systems/snark/plonk/placeholder/fri_lin_inter.hpp", B + "components/systems/snark/plonk/placeholder/fri_array_swap.hpp", B + "components/systems/snark/plonk/placeholder/fri_cosets.hpp"], mechanism=[("assignment and constraints", "the five circuits")], note=""),
dict(id="C13", title="Arguments of the placeholder verifier compute their formulas and pin the result",
  statement="For all evaluations and challenges the circuits that recompute the gate, permutation, lookup and basic-constraint arguments of a placeholder proof yield the value of the protocol's formula and fill the table so that every constraint holds. The constraints admit no other outputs, whatever the witness cells hold, for every number of columns and constraints and every width within the bounds.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every field element for every evaluation and challenge, every content of the witness cells, sizes and widths within the bounds"},
  why="How a loop is folded into rows depends on its length and the width together; tests run one or two combinations, with honest witnesses, and a partial sum left unconstrained is invisible to them.",
  files=[B + "components/systems/snark/plonk/placeholder/" + f + ".hpp" for f in ("permutation_argument_verifier", "gate_argument_verifier", "lookup_argument_verifier", "detail/gate_component", "detail/f1_loop", "detail/f3_loop")], mechanism=[("arguments", "permutation_argument_verifier, gate_argument_verifier, lookup_argument_verifier"), ("loops", "gate_component, f1_loop, f3_loop")],
  note="Two defects of f3_loop were repaired."),
dict(id="C14", title="Flexible-width arithmetic circuits compute and enforce their function",
  statement="The circuits that spread over any number of columns - batches of additions and multiplications, swaps by a bit, constant powers and polynomials with a power factor - yield their function of the inputs for every width, satisfy their constraints and determine their outputs; their declared rows and gates are what they use.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every field element, the widths, lengths and exponents listed, every content of the witness cells"},
  why="Tests use one or two widths and sizes; rows that are exactly full, powers of four and blocks that cross a row end are the cases that go wrong.",
  files=[B + "components/systems/snark/plonk/flexible/additions.hpp", B + "components/systems/snark/plonk/flexible/multiplications.hpp", B + "components/systems/snark/plonk/flexible/swap.hpp", B + "components/systems/snark/plonk/flexible/constant_pow.hpp", B + "components/systems/snark/plonk/flexible/pow_factor.hpp"], mechanism=[("assignment and constraints", "the five circuits")],
  note="Three defects of constant_pow were repaired."),
dict(id="C15", title="Only equal gates share a selector and no copy constraint is lost",
  statement="Adding a gate that is already present, in whatever order its constraints come, returns the selector of the present one and stores nothing; adding any other gate returns a fresh selector and stores exactly that gate. The same holds of lookup gates; gates and lookup gates never share a selector. A copy constraint is stored as given unless it relates a cell to itself or mentions private storage.",
  over=["inputs", "histories"], **{"for": "every pair of gates of the shapes listed with free coefficients, every order, every history of three operations"},
  why="Wrongly merging two gates drops constraints silently; all honest proofs still pass.",
  files=[B + "blueprint/plonk/circuit.hpp", B + "gate_id.hpp"], mechanism=[("gate identity", "gate_id, lookup_gate_id"), ("storage", "circuit::add_gate, add_lookup_gate, add_copy_constraint")], note=""),
dict(id="C16", title="The assignment table holds what was written and knows its extent",
  statement="After any sequence of writes every cell of the table reads as the value last written, or zero; column sizes and the number of allocated rows cover exactly what was written; enabling a range of a selector sets those rows and no others; private, shared and batch storage keep each value apart.",
  over=["inputs", "histories"], **{"for": "every sequence of writes within the bounds, every field value"},
  why="Components rely on rows not clobbering each other; tests use fixed write patterns.",
  files=[B + "blueprint/plonk/assignment.hpp"], mechanism=[("table", "assignment::witness, constant, selector, enable_selector, private_storage, shared, add_batch_variable")], note=""),
dict(id="C17", title="The satisfiability check accepts exactly the satisfying tables",
  statement="is_satisfied returns true exactly when every constraint of every gate vanishes on every row where its selector is set, every lookup tuple occurs in its table, and both sides of every copy constraint are equal; restricted to a choice of gates, rows and copies it judges exactly that choice.",
  over=["inputs"], **{"for": "every content of tables within the bounds"},
  why="The whole test suite trusts this function; an accepted bad table makes every other test vacuous.",
  files=[B + "utils/satisfiability_check.hpp"], mechanism=[("decision", "is_satisfied")], note=""),
dict(id="C18", title="The connectedness check is reachability over shared constrained cells",
  statement="Two cells hang together when a chain of gates on enabled rows, lookups and copy constraints links them. The strong check accepts exactly when all inputs and outputs hang together, the weak one when every output hangs on an input and every input on an output; with islands forbidden, also every constrained cell has to hang on an input or output.",
  over=["inputs", "configurations"], **{"for": "every value of the selectors and every choice of copy constraints within the bounds"},
  why="Tests only ask the check about components that are connected; a check that accepts everything would pass them.",
  files=[B + "utils/connectedness_check.hpp"], mechanism=[("zones", "generate_connectedness_zones, mark_set, copy_var_address"), ("verdict", "check_strong_connectedness, check_weak_connectedness, check_islands")], note=""),
dict(id="C19", title="Batched components and constants end up as if placed one by one",
  statement="Deferred component instances are computed once per distinct request, packed into rows in order, and every use of a deferred result is replaced by the real cell, which carries the right value; constraints admit no other. Batched constants are placed in free constant cells only: a constant in use by a gate, a lookup or a copy constraint keeps its value.",
  over=["inputs", "adversarial witnesses", "histories"], **{"for": "every operand, the batch sizes and widths listed, every content of the constant column, every content of the witness cells"},
  why="Overwriting a constant that a gate reads depends on which rows are in use; tests batch into empty tables.",
  files=[B + "component_batch.hpp", B + "blueprint/plonk/assignment.hpp"], mechanism=[("batching", "component_batch::add_input, finalize_batch"), ("constants", "assignment::finalize_constant_batches")],
  note="Constants read by gates were overwritten; repaired."),
dict(id="C20", title="Stretching a component over more columns preserves what it computes and enforces",
  statement="A component stretched over a multiple of its columns yields the value of the original and fills the table so that every constraint holds. The moved constraints admit no other result, wherever the inputs lie, and the rows it declares are the rows it uses.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every input value, every content of the witness cells, component layouts and multiples within the bounds"},
  why="Tests stretch a few fixed components with public inputs in order; packing several zones into a block, moving constants and inputs elsewhere never happens there.",
  files=[B + "component_stretcher.hpp", B + "detail/huang_lu.hpp", B + "utils/gate_mover.hpp"], mechanism=[("zones", "generate_zones, compute_remapping"), ("moving", "move_var, move_gate_var, move_circuit, move_assignment")],
  note="Two defects were repaired."),
dict(id="C21", title="Proxies share one table and circuit and record their own part exactly",
  statement="Whatever is written or added through one of several proxies lands in the shared table or circuit and is seen through all of them. Each proxy records exactly the rows, selector rows, gates, lookup gates, tables and copy constraints used through it and, with checking on, refuses to read rows it did not write. A prover's part is judged by its own gates and copy constraints, and values handed over are seen by the other prover.",
  over=["inputs", "histories"], **{"for": "every sequence of operations through two proxies within the bounds"},
  why="Tests use a single proxy and a fixed sequence; a dropped constraint or a call that ends in the wrong object needs an unusual sequence.",
  files=[B + "blueprint/plonk/assignment_proxy.hpp", B + "blueprint/plonk/circuit_proxy.hpp"], mechanism=[("forwarding", "assignment_proxy, circuit_proxy"), ("recording", "get_used_rows, get_used_gates, get_used_copy_constraints"), ("handing over", "save_shared_var")],
  note="Dropped copy constraints claimed a foreign one, and gates on given selectors and dynamic tables were lost; repaired. Checking a proxy ignores its gates; recorded as a known finding."),
dict(id="C22", title="Width requirements of circuit components combine as sets of numbers",
  statement="A declared width requirement (one number, an arithmetic range with exclusive end, or a set) accepts exactly its member widths in strict mode, and any width at least as large as some member in relaxed mode; it reports itself unsatisfiable exactly when it is empty, and its maximum is its largest member. Intersecting two requirements accepts exactly the common widths, subtracting removes exactly the subtracted widths. Merging two requirements is unsatisfiable exactly when one part is, accepts only widths declared by one of the parts and large enough for both, and does not lose such widths.",
  over=["inputs", "configurations"], **{"for": "every start, end, step and set content within the bounds, every pair of requirement shapes"},
  why="Tests list a few hand-picked ranges; the failures are at particular alignments of start, step and end (phase of a range, last element, one-element ranges) that only show for some combinations.",
  files=[B + "manifest.hpp"], mechanism=[("width requirement algebra", "manifest_param, manifest_single_value_param, manifest_range_param, manifest_set_param in manifest.hpp")],
  note="All three requirement shapes and all binary operations of the real classes are executed symbolically."),
dict(id="C23", title="Manifests accept exactly the configurations a component can use",
  statement="A component manifest accepts a proposed number of witness and constant columns exactly when they meet the declared width and constant-column needs. A compiler manifest offers every width up to and including its maximum, and intersecting it with a component keeps exactly the widths and constants both sides can agree on, as do merges of constant and lookup needs. A gate manifest counts each distinct set of gates once however often and in whatever order it is added or merged.",
  over=["inputs", "configurations"], **{"for": "every combination of need, offer, width, maximum and strictness within the bounds; every equality pattern of merged gate sets"},
  why="The acceptance decision depends jointly on width shape, step alignment, maximum, constant demand and strictness; the existing tests visit a few dozen of the tens of thousands of combinations.",
  files=[B + "manifest.hpp"], mechanism=[("acceptance and intersection", "plonk_component_manifest, compiler_manifest, manifest_constant_type, manifest_lookup_type"), ("gate counting", "gate_manifest, component_gate_manifest")],
  note="Acceptance, intersection, merge and gate counting are executed symbolically."),
dict(id="C24", title="Job distribution places every job once and stays within 11/9 of optimal",
  statement="Distributing a list of jobs over a number of agents assigns every job to exactly one existing agent. The largest resulting load is at most 11/9 of the largest load of any other distribution of the same jobs.",
  over=["inputs"], **{"for": "all job sizes (not all zero) within the bounds, compared with every alternative placement"},
  why="The bound is over all job size vectors and all alternative placements; the test suite compares forty pseudo-random instances from one seed.",
  files=[B + "detail/huang_lu.hpp"], mechanism=[("job packing", "huang_lu in detail/huang_lu.hpp, used by component_stretcher.hpp")],
  note="The packing function is executed with symbolic job sizes; the competing placement is a second set of symbolic variables."),
dict(id="C25", title="SHA-256 lookup tables hold the right rows and table text is read exactly",
  statement="The embedded base-4 and base-7 tables contain, exactly once, every digit string that the sum of the three rotations used by SHA-256 can produce in an eight-bit window, each paired with the parities of its digits. Reading a table from text yields exactly the written hexadecimal numbers column by column, refuses rows with missing or malformed numbers and unknown table names, and from several candidate files uses the first one that is well formed.",
  over=["inputs", "configurations"], **{"for": "all 32-bit words whose rotation sums are looked up; all digits of table text within the bounds; all states of the candidate files"},
  why="A wrong or missing row among 109440 only matters for the inputs whose chunk hits it; no test reads the tables row by row.",
  files=[B + "detail/lookup_table_loaders.hpp", B + "detail/lookup_table_precomputes.hpp"], mechanism=[("table reader", "parse_lookup_table, load_lookup_table, load_lookup_table_from_bin"), ("table data", "_8_SPLIT_4, _8_SPLIT_7")],
  note="The real reader is executed over the real table text; membership of the symbolic word's digit string is decided over the loaded rows."),
dict(id="C26", title="Generated lookup tables contain exactly their relation",
  statement="The and, xor, byte, 16-bit chunk and EVM opcode tables contain a tuple exactly when it satisfies the relation they are named after; reserving tables lists exactly those reserved, with their true sizes, columns and row ranges.",
  over=["inputs", "configurations"], **{"for": "every tuple of field elements, every reservation"},
  why="A wrong or extra row is invisible to honest tests: it only lets a false statement be proven.",
  files=[B + "lookup_library.hpp"], mechanism=[("generation", "table definitions in lookup_library.hpp"), ("reservation", "lookup_library::reserve_table, get_reserved_tables")], note=""),
dict(id="C27", title="EVM words wrap modulo 2^256, split into chunks and stack last in first out",
  statement="A number becomes a word by reduction modulo 2^256. A word splits into sixteen field elements holding its 16-bit chunks, lowest first, and a 64-bit number into four. The word stack returns words in reverse order of insertion; swap exchanges the two on top and dup repeats the top.",
  over=["inputs", "histories"], **{"for": "every word, every 64-bit number, every sequence of stack operations within the bounds"},
  why="Tests split two words; a lost bit at one chunk boundary shows for few values.",
  files=[B + "zkevm/zkevm_word.hpp", B + "zkevm/stack.hpp"], mechanism=[("splitting", "zkevm_word_to_field_element, chunk_64_to_16"), ("stack", "zkevm_stack")], note=""),
dict(id="C28", title="EVM state transition constraints hold exactly for the transition asked",
  statement="The constraints generated for a transition hold on two rows exactly when each tracked variable is unchanged, changed by the given step, set to the given value, free, or moved by its default (program counter plus one, the rest unchanged) as asked.",
  over=["inputs", "configurations"], **{"for": "every value of every variable, every kind of transition, steps of both signs"},
  why="Tests use a few fixed transitions.",
  files=[B + "zkevm/state.hpp"], mechanism=[("transitions", "generate_transition_constraints, handle_transition"), ("state", "state_var, zkevm_state")], note=""),
dict(id="C29", title="Every EVM instruction has its specified byte and name, one to one",
  statement="A byte decodes to an instruction exactly when the Ethereum virtual machine defines one for it, and then to that instruction under its standard name. Encoding an instruction gives back its byte, so encoding and decoding are inverse, and the number of instructions reported is the number defined.",
  over=["inputs"], **{"for": "all 256 bytes and all instructions"},
  why="No test looks at the table; a swapped pair affects only programs using these instructions.",
  files=[B + "zkevm/zkevm_opcodes.hpp"], mechanism=[("opcode map", "opcodes_info, opcode_to_string in zkevm/zkevm_opcodes.hpp")],
  note="Lookup in both directions is executed for a symbolic byte and a symbolic instruction against a reference table of the Cancun instruction set."),
dict(id="C30", title="EVM arithmetic rows satisfy the circuit and pin the result",
  statement="For every pair of words the table rows filled for ADD, SUB and ISZERO carry the operands and the result modulo 2^256 in 16-bit chunks and satisfy the assembled circuit; so does any sequence of implemented operations. For ADD, SUB, MUL and ISZERO the constraints leave no choice of the result once operands and instruction are given. The machine's stack is left as it was.",
  over=["inputs", "adversarial witnesses", "histories"], **{"for": "every pair of 256-bit words, every pair of successive operations, every content of the operation's columns"},
  why="Tests run fixed words and one kind of operation per table; carries and an operation that follows a one-row operation go unseen.",
  files=[B + "zkevm/zkevm_circuit.hpp", B + "zkevm/operations/add_sub.hpp", B + "zkevm/operations/mul.hpp", B + "zkevm/operations/div.hpp", B + "zkevm/operations/iszero.hpp"], mechanism=[("operations", "generate_assignments and generate_gates"), ("assembly", "zkevm_circuit::assign_opcode, get_opcode_row_constraint")],
  note="An operation after a one-row operation was rejected; repaired."),
dict(id="C31", title="The EVM bytecode table tells instructions from push data and enforces it",
  statement="For every bytecode the table lists each byte with its index, its code's hash and whether it is an instruction: a byte is data exactly when it lies within the operand of a preceding push. For codes made of valid instructions the bytecode circuit's constraints and lookups hold, and with the kinds of rows and bytes given they admit no other index, instruction flag, remaining length or linear combination.",
  over=["inputs", "adversarial witnesses"], **{"for": "every byte string within the bounds, every content of the remaining witness cells"},
  why="Tests run two fixed contracts with honest rows; nobody tries to declare an instruction data.",
  files=[B + "zkevm/bytecode.hpp"], mechanism=[("rows", "generate_assignments of zkevm_bytecode_table and zkevm_bytecode"), ("constraints and lookups", "generate_gates of zkevm_bytecode")],
  note="A missing range check of the push size was repaired."),
dict(id="C32", title="The state selector activates exactly the option given",
  statement="For every option the selector circuit's columns satisfy its constraints, the constraint of that option is active and no other is. The index given determines every column, and an index that is not an option satisfies nothing.",
  over=["inputs", "adversarial witnesses", "configurations"], **{"for": "every option of selectors of the sizes listed, every content of the columns"},
  why="A selector whose index is not tied to its input passes every honest test.",
  files=[B + "zkevm/state_selector.hpp"], mechanism=[("selection", "generate_constraints, option_constraint, generate_circuit")],
  note="The input was not connected; repaired."),
dict(id="C36", title="Integer power equals repeated multiplication",
  statement="Raising a number to a non-negative integer exponent gives the product of that many copies of it, and one for exponent zero.",
  over=["inputs"], **{"for": "all 64-bit bases and exponents within the bounds"},
  why="Errors of square-and-multiply show only for particular bit patterns of the exponent.",
  files=["include/nil/detail/static_pow.hpp"], mechanism=[("square and multiply", "pow in static_pow.hpp")],
  note="The function is executed with symbolic base and exponent."),
dict(id="C38", title="Components declare the widths and gates of the configuration asked about",
  statement="The widths a component allows depend on the parameters of the request alone, not on earlier requests. When the gates of two configurations are counted together, configurations with different gates add up, equal ones count once, and different components never count as one.",
  over=["configurations", "histories"], **{"for": "every pair of configurations within the bounds, in either order"},
  why="Tests build one configuration of a component per process, so a declaration kept from the first request goes unseen.",
  files=[B + "manifest.hpp", B + "components/algebra/fields/plonk/range_check.hpp", B + "components/algebra/fields/plonk/logic_and_flag.hpp", B + "components/algebra/fields/plonk/logic_or_flag.hpp", B + "components/algebra/fields/plonk/non_native/equality_flag.hpp", B + "components/algebra/fields/plonk/non_native/comparison_flag.hpp", B + "components/algebra/fields/plonk/non_native/comparison_checked.hpp", B + "components/algebra/fields/plonk/non_native/division_remainder.hpp", B + "components/systems/snark/plonk/flexible/pow_factor.hpp", B + "components/systems/snark/plonk/flexible/poseidon.hpp", B + "components/systems/snark/plonk/placeholder/fri_array_swap.hpp", B + "components/systems/snark/plonk/placeholder/fri_cosets.hpp", B + "zkevm/state_selector.hpp"], mechanism=[("widths", "get_manifest of each component"), ("gates", "gate_manifest::merge_with, gate_manifest_type::operator<")],
  note="Widths lingered from the first request and gates of different configurations were counted as one; both repaired."),
dict(id="C39", title="Moving a gate to other columns moves every variable and nothing else",
  statement="A gate moved by a column map takes on every row the value that the original takes on the table whose columns were permuted accordingly; rotations, coefficients and column kinds are kept.",
  over=["inputs", "configurations"], **{"for": "every column map within the bounds, every coefficient, every cell value"},
  why="Tests move one gate and compare strings.",
  files=[B + "utils/gate_mover.hpp"], mechanism=[("rewriting", "gate_mover")], note=""),
dict(id="C41", title="A failed library assertion always stops the caller and says where",
  statement="A release assertion whose condition is false throws an error naming the condition, the line and the file; one whose condition is true has no effect, and the condition is evaluated exactly once. The debug assertion behaves the same when debugging is enabled and does nothing at all, not even evaluate its condition, when it is not.",
  over=["inputs", "configurations"], **{"for": "every value of the operands of the condition, debugging on and off"},
  why="Nothing tests the macros; a weakened one silently disables every internal consistency check of the library.",
  files=[B + "assert.hpp"], mechanism=[("assertion macros", "BLUEPRINT_RELEASE_ASSERT, BLUEPRINT_ASSERT, detail::blueprint_assert in assert.hpp")],
  note="Both macros are executed with symbolic operands."),
dict(id="C11", title="SHA-256 and SHA-512 circuits compute the digest and admit no other",
  statement="For every block the SHA-2 circuits yield the digest of the reference function, their constraints and lookups hold, and no other digest satisfies them.",
  over=["inputs"], **{"for": "every operand"},
  why="Tests hash a few fixed blocks with honest witnesses.",
  files=[B + "components/hashes/sha2/plonk/sha256.hpp", B + "components/hashes/sha2/plonk/sha512.hpp"], mechanism=[("rounds", "sha256_process and sha512_process")],
  note=""),
dict(id="C33", title="R1CS gadgets compute and enforce field, curve and hash operations",
  statement="For every operand an R1CS gadget's generated witness satisfies its constraints and carries the right value, and no other value does.",
  over=["inputs"], **{"for": "every operand"},
  why="Tests use single operands.",
  files=[B + "components/algebra/fields/r1cs"], mechanism=[("constraints", "generate_gates of the gadgets")],
  note=""),
dict(id="C35", title="Ed25519 products, point operations and signatures are computed and enforced",
  statement="Multiplication modulo 2^255 - 19, addition and doubling of points, scalar multiplication and signature verification yield the right result for every operand and admit no other.",
  over=["inputs"], **{"for": "every operand"},
  why="Tests use random operands.",
  files=[B + "components/algebra/fields/plonk/non_native/multiplication.hpp", B + "components/pubkey/eddsa/plonk/non_native/verification.hpp"], mechanism=[("limbs", "generate_gates of the multiplication")],
  note=""),
dict(id="C37", title="Kimchi verifier circuits accept exactly valid proofs",
  statement="The kimchi verifier circuits accept a proof exactly when the reference verifier does.",
  over=["inputs"], **{"for": "every operand"},
  why="Tests replay one or two stored proofs.",
  files=[B + "components/systems/snark/plonk/kimchi"], mechanism=[("verifier", "verifier components")],
  note=""),
]
