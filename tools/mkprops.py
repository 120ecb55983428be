#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the statements stay readable)."""
import json
PB="poseidon-base/src/"; PC="poseidon-circuit/src/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","BN254 hash permutation equals reference Poseidon on every state",
 "For every state of three BN254 scalar field elements, the permutation that the hash API applies returns exactly the reference Poseidon output: x^5 S-box, 8 full and 57 partial rounds, with the round constants and mixing matrix that the Poseidon parameter generator yields for this field and width. This holds for the plain and the constant-folded parameterisation, and for every build variant.",
 ["inputs","configurations"],
 "all states in Fr^3 (fully symbolic); both parameterisations; default, no-default-features and legacy builds. No bound on the input; the round structure is fixed.",
 "The tests permute one concrete BN254 state through both parameterisations and compare them with each other; nothing compares BN254 outputs with the reference for other states, and a state-dependent shortcut or special case is never reached by a handful of vectors.",
 [PB+"primitives.rs",PB+"primitives/p128pow5t3.rs",PB+"primitives/p128pow5t3_compact.rs",PB+"primitives/bn256/fp.rs",PB+"params.rs",PB+"hash.rs"],
 [("permute",PB+"primitives.rs"),("Spec::sbox / Spec::constants",PB+"primitives/p128pow5t3.rs, p128pow5t3_compact.rs"),("cached constants",PB+"params.rs")],
 observe=["permute()","Hash::permute()","Spec::constants()","CachedSpec::cached_*()"])

prop("C02","Constant folding never changes the permutation",
 "For every width-3 Poseidon parameter set (any round constants, any mixing matrix, any number of partial rounds) and every input state, the constant-folded parameterisation computes the same permutation as the plain one. Folding leaves no constant on the two state words that skip the S-box in partial rounds, and leaves the mixing matrix and its inverse untouched.",
 ["inputs","configurations"],
 "all states, all round constants, all 3x3 matrices and inverse matrices as symbolic field elements; number of partial rounds 1..=8 plus 56, 57 and 60 (full rounds fixed at 8 by the specification).",
 "test_compact_constants and spec_equivalence compare one state for the two shipped parameter sets; the folding is generic code whose errors can cancel for one concrete parameter set or state, or show only for other numbers of rounds.",
 [PB+"primitives/p128pow5t3_compact.rs",PB+"primitives/p128pow5t3.rs",PB+"primitives.rs"],
 [("constants() folding loop, mat_mul, vec_accumulate, vec_remove_tail",PB+"primitives/p128pow5t3_compact.rs")],
 observe=["Spec::constants()","permute()"])

prop("C03","The permutation is invertible with the published inverse matrix",
 "For every state, undoing the rounds of the BN254 permutation in reverse order with the exported inverse mixing matrix, the exported round constants and the fifth-root map returns the original state, so no two states collide. The exported inverse matrix undoes the exported mixing matrix on every vector, on both sides, for BN254 and for Pallas.",
 ["inputs"],
 "all states in Fr^3 and all vectors, symbolic; BN254 (plain, folded and cached constants) and Pallas base field.",
 "verify_mds checks one product for BN254; the Pallas inverse is compared with a generated one; neither says anything about the permutation being injective, nor about the cached copies the circuits use.",
 [PB+"primitives/bn256/fp.rs",PB+"primitives/pasta/fp.rs",PB+"params.rs",PB+"primitives.rs"],
 [("MDS_INV adjugate computation",PB+"primitives/bn256/fp.rs"),("cached_mds_inv",PB+"params.rs")],
 observe=["Spec::constants().2","CachedSpec::cached_mds_inv()"])

prop("C04","Two-to-one hash is one permutation of (domain, left, right)",
 "For every left and right input and every domain value, the two-to-one hash of two field elements equals the first word of the permutation applied to the state (domain, left, right). The deprecated domain-less form equals the same hash with domain zero.",
 ["inputs","configurations"],
 "all left, right, domain in Fr (symbolic, including coincidences such as left = right or a zero domain); default, no-default-features and legacy builds.",
 "Only vectors in the circuit crate (which does not build here) pin two values; in the base crate nothing exercises this entry point except a lazy-init smoke test.",
 [PB+"hash.rs",PB+"primitives.rs"],
 [("hash_with_domain",PB+"hash.rs"),("Hash::<ConstantLengthIden3>::hash, layout, update_capacity",PB+"primitives.rs")],
 observe=["Hashable::hash_with_domain","Hashable::hash"])

prop("C05","Message hash absorbs every element in order, two per permutation",
 "For every non-empty message of field elements and every capacity value, the message hash equals: start from (capacity, 0, 0), add the next two message elements (zero where the last pair is incomplete) to the second and third state words, permute, repeat until the message is exhausted, and return the first state word. Two messages of equal length and capacity therefore differ in digest-determining input whenever they differ in any element.",
 ["inputs"],
 "all messages of length 1..=24 plus lengths 31, 32, 33, 63, 64, 65, 127, 128, 129 and 256, 257 (thorough: every length 1..=300 and around 512, 1024, 2048) with symbolic elements, and capacities 0, 1, 2^64-1, 2^64, 2^127 and 2^128-1; the capacity as an arbitrary 128-bit integer is decided in C06.",
 "No base-crate test hashes a message at all; two vectors of length 3 and 4 in the circuit crate cannot see errors at other lengths, parities or chunk boundaries.",
 [PB+"hash.rs",PB+"primitives.rs"],
 [("hash_with_cap",PB+"primitives.rs"),("VariableLengthIden3::padding",PB+"primitives.rs"),("absorb / finish_absorbing / squeeze",PB+"primitives.rs")],
 observe=["MessageHashable::hash_msg","Hash::hash_with_cap"])

prop("C06","The message capacity is exactly the given or default domain value",
 "For every explicit 128-bit capacity value, the message hash starts from exactly that value in the capacity word; when no capacity is given it starts from message length times 2^64 (message length alone in the legacy build), for every message length. No bit of the value is lost, and nothing else reaches the capacity word before the first permutation.",
 ["inputs","configurations"],
 "all explicit capacities in [0, 2^128) and all message lengths 1..=2^42 for the default capacity (bit-precise symbolic integers; the state entering the first permutation is what is compared), and the whole hash for 17 capacities and 40 lengths; default, no-default-features and legacy builds.",
 "The default capacity is not exercised by any test in this tree that builds; a test cannot sample 2^128 capacities or messages whose length exceeds 32 bits.",
 [PB+"hash.rs",PB+"primitives.rs"],
 [("hash_msg default cap, HASHABLE_DOMAIN_SPEC",PB+"hash.rs"),("update_capacity, hash_with_cap",PB+"primitives.rs")],
 observe=["MessageHashable::hash_msg"])

prop("C07","Fixed-length sponge hash follows its layout for every width and rate",
 "For every width, rate and fixed input length, hashing a fixed-length message equals the reference sponge: the input is zero-padded to a multiple of the rate, added rate-many elements at a time to the rate words and permuted after each, with the first output word returned. The capacity word holds input length times 2^64 and follows the rate words in the standard layout; in the right-aligned (iden3) layout it is word zero, holds only the given domain, and the rate words follow it.",
 ["inputs","configurations"],
 "all messages and domains (symbolic) for (width, rate) in {(2,1),(3,1),(3,2),(4,2),(4,3),(5,3),(5,4),(9,8)} and input lengths 1..=12 plus 16, 17 and 33 where compatible, with a generic round function; Pallas and BN254 parameters at (3,2).",
 "The tests cover width 3, rate 2 and length 2 on one concrete field; the code is generic and other instantiations (multi-block inputs, padding, width-rate gaps) are never executed.",
 [PB+"primitives.rs"],
 [("ConstantLength / ConstantLengthIden3 domains",PB+"primitives.rs"),("Sponge::new/absorb/finish_absorbing/squeeze, poseidon_sponge",PB+"primitives.rs")],
 observe=["Hash::hash"])

prop("C08","Hash results depend only on their own arguments, never on history",
 "For every sequence of calls to the hashing, hasher-construction, permutation and parameter functions, each call returns the same value as it would in a fresh process, whatever calls with whatever arguments came before it. In particular hashers handed out are independent copies and using one leaves every other one and every cached parameter unchanged.",
 ["histories","inputs"],
 "all call sequences of length up to 3 over nineteen operations (thorough: 4) with symbolic arguments per call, including coincidences between arguments of different calls; plus repetitions of one operation up to 1500 calls (thorough: 3000) with distinct symbolic arguments.",
 "test_lazy_init only constructs hashers twice; tests never interleave operations, so state leaking through the process-wide cached hashers or parameters is invisible to them.",
 [PB+"hash.rs",PB+"params.rs",PB+"primitives.rs"],
 [("OnceCell-cached hashers, cloned per call",PB+"hash.rs"),("lazy_static CONSTANTS",PB+"params.rs")],
 state=[("INIT","process-wide hasher prototype",PB+"hash.rs"),("CONSTANTS","process-wide parameters",PB+"params.rs")],
 observe=["Hashable::hasher","MessageHashable::msg_hasher","Hashable::hash_with_domain","MessageHashable::hash_msg","Hash::permute"])

prop("C09","Parameter generator emits the reference Grain bit stream",
 "For every width, number of full and partial rounds and field size, parameter generation consumes exactly the reference self-shrinking Grain stream seeded with those parameters (80-bit register, 160 discarded bits): round constants are successive field-size chunks of the stream, most significant bit first, rejecting values outside the field. The mixing-matrix samples continue the same stream, each one chunk reduced into the field without rejection.",
 ["inputs","configurations"],
 "complete streams for eleven combinations of width, round numbers and matrix index at the BN254 size, with the accept/reject outcome of the first six chunks of the stream symbolic; the complete parameters of the shipped BN254 and Pallas instances.",
 "verify_constants pins the two shipped instantiations; other widths, round numbers and field sizes (the seed fields and the rejection path) are not covered, and the shipped ones only through constants that were produced by the same code.",
 [PB+"primitives/grain.rs",PB+"primitives.rs"],
 [("Grain::new, load_next_8_bits, next, next_field_element",PB+"primitives/grain.rs"),("Spec::constants default",PB+"primitives.rs")],
 observe=["Spec::constants() default implementation"])

prop("C10","Generated mixing matrix is the Cauchy matrix and its true inverse",
 "For every outcome of sampling the field, matrix generation draws 2T elements until all are distinct, skips as many such draws as the requested index, and returns the matrix with entries 1/(x_i + y_j) together with a matrix that is its exact inverse on both sides; if some x_i + y_j of the selected draw is zero no such matrix exists and generation panics instead of returning one. Samples with a repeated element are always discarded and never count towards the index.",
 ["inputs","configurations"],
 "all sample values (symbolic field elements, every equality pattern with at most two coincidences), T = 2..=4 (thorough: 5) and selection index 0..=2; for T >= 4 the inverse identity is decided entry by entry.",
 "poseidon_mds checks one matrix from one concrete stream, where no duplicates and no skipping occur.",
 [PB+"primitives/mds.rs",PB+"primitives.rs"],
 [("generate_mds",PB+"primitives/mds.rs")],
 observe=["Spec::constants() default implementation"])

prop("C11","Septidon circuit admits only correct permutations",
 "In the 8-row permutation circuit, every assignment of all witness cells that satisfies the gates on the enabled rows of a block has output words equal to the reference permutation of its input words. No row outside the block, no neighbouring block and no unconstrained helper cell can change that.",
 ["inputs"],
 "all assignments of all witness cells of a block (each cell an independent symbolic field element), BN254 parameters, gates and fixed columns taken from the configured and synthesised circuit; 1, 2, 3 and 9 blocks (thorough: up to 17) placed singly and in batch, with one, three or all processors and regions in either order.",
 "The proving tests only show that honest witnesses pass; no test can enumerate dishonest witnesses, and in this environment the circuit crate does not build at all.",
 [PC+"poseidon/septidon/septidon_chip.rs",PC+"poseidon/septidon/full_round.rs",PC+"poseidon/septidon/loop_chip.rs",PC+"poseidon/septidon/transition_round.rs",PC+"poseidon/septidon/septuple_round.rs",PC+"poseidon/septidon/control.rs",PC+"poseidon/septidon/state.rs",PC+"poseidon/septidon/util.rs",PC+"poseidon/septidon/params.rs"],
 [("gates of the full, transition, septuple and loop chips",PC+"poseidon/septidon/"),("control signals",PC+"poseidon/septidon/control.rs")],
 observe=["ConstraintSystem gates","fixed and selector assignment"])

prop("C12","Septidon assignment always satisfies its circuit and returns the permutation",
 "For every input state, and for every number of permutations placed in one circuit, the assignment procedure of the 8-row chip produces a witness that satisfies all gates and copy constraints, and the words it returns equal the reference permutation of each input. Permuting one at a time and in batch give the same results, and neither leaves a required cell unassigned.",
 ["inputs","configurations"],
 "all input states (symbolic), eleven numbers of permutations up to 40 (thorough: up to 129), placed one by one and in batch, with one, three or all processors and regions in either order.",
 "The existing circuit test runs three concrete states through MockProver; it cannot cover values for which a helper cell or a round takes a special value.",
 [PC+"poseidon/septidon/septidon_chip.rs",PC+"poseidon/septidon/instruction.rs",PC+"poseidon/septidon/full_round.rs",PC+"poseidon/septidon/transition_round.rs",PC+"poseidon/septidon/septuple_round.rs"],
 [("assign_permutation, permute, permute_batch",PC+"poseidon/septidon/instruction.rs")],
 observe=["PermuteChip::permute_batch","PoseidonInstructions::permute"])

prop("C13","Pow5 circuit admits only correct permutations and accepts all honest ones",
 "In the row-per-round permutation circuit, every witness satisfying the gates and copy constraints has output words equal to the reference permutation of the input words, and the assignment procedure produces such a witness for every input state. Its pad-and-add step likewise forces, and honestly satisfies, output = previous state plus padded input with the capacity word unchanged.",
 ["inputs"],
 "all assignments of all witness cells (soundness) and all input states (completeness), symbolic; BN254 parameters at width 3, rate 2, permutation and sponge-input regions.",
 "The circuit tests run honest concrete witnesses only, and do not build here.",
 [PC+"poseidon/pow5.rs"],
 [("full round, partial rounds, pad-and-add gates",PC+"poseidon/pow5.rs"),("Pow5State::full_round / partial_round / round",PC+"poseidon/pow5.rs")],
 observe=["ConstraintSystem gates","PoseidonInstructions::permute","PoseidonSpongeInstructions::add_input"])

prop("C14","Hash table rows that satisfy the gates are genuine hash entries",
 "In the hash table circuit, every witness satisfying all constraints is a genuine table: the head flag of each row is Boolean, a continuation row's control is nonzero and exactly one step (times the domain factor) below the previous row's, and a head row follows only a row whose control is a multiple of the domain factor up to one step. Each row's digest belongs to the permutation of (control + domain, inputs) on a head row, and of the previous output state plus the inputs and domain on a continuation row; the hash index is constant along a message and equals the digest of its last row. Only the last row of the region and the leading custom row are exempt, as documented.",
 ["inputs"],
 "all assignments of all witness cells (each an independent unknown): complete tables of up to 5 rows (thorough: 8) and every window of 4 (5) consecutive rows inside tables of 20 (60) rows whose other rows are unconstrained; both permutation chips, steps 1, 32 and 62; default, legacy-base, parallel and no-default builds.",
 "MockProver tests check honest tables only; malicious rows are not enumerable.",
 [PC+"hash.rs","spec/hash-table.md"],
 [("custom row, control constrain, control step, range lookup, hash index constrain, input constrain",PC+"hash.rs")],
 observe=["ConstraintSystem gates and lookups"])

prop("C15","Every well-formed hash table can be assigned and exposes the right digests",
 "For every table built from two-to-one entries and complete message streams, and every capacity larger than its number of rows, loading the table yields a witness satisfying all gates, lookups and copy constraints, in which each row shows its inputs, control, domain, head flag and the digest the hash API computes for that entry. Serial and parallel assignment produce the same table contents.",
 ["inputs","configurations"],
 "all field elements of inputs and domains (symbolic); the table shapes listed in DESIGN.md: sequences of up to three two-to-one hashes and 1- to 3-row streams with boundary step remainders, longer streams up to 17 rows and tables of 33 and 40 entries (thorough: 70 rows, 257 entries), capacities up to 4 rows above the table, serial and parallel placement with 1, 2, 3 and 8 threads, both permutation chips, default and legacy-base domain factor.",
 "The circuit tests prove a couple of fixed tables; they do not vary shape, chunk boundaries of the parallel path or field values, and do not build here.",
 [PC+"hash.rs"],
 [("fill_hash_tbl_custom/body/body_partial, load",PC+"hash.rs")],
 observe=["SpongeChip::load"])

prop("C16","Circuit shape does not depend on the data being hashed",
 "For a given capacity, the fixed columns, selectors, lookup tables, copy constraints and region layout produced when loading a hash table are the same for all tables that fit, whatever their contents, so that one verification key serves every table; a circuit without witnesses has this same shape.",
 ["inputs","configurations"],
 "all field contents (symbolic) and all table shapes of C15 at equal capacity, compared cell by cell; serial assignment, both chips. Parallel assignment cuts sub-regions by content, so there the comparison is up to physical cell position.",
 "Tests generate the key and the proof from one table; a shape that depends on contents shows only when a different table meets an old key.",
 [PC+"hash.rs",PC+"poseidon/septidon/instruction.rs",PC+"poseidon/pow5.rs"],
 [("load",PC+"hash.rs")],
 observe=["synthesised fixed/selector/copy layout"])

prop("C17","Table builders keep rows aligned and count controls down correctly",
 "For every sequence of builder calls, the i-th input row keeps its own control, domain and expected digest: two-to-one rows get control zero and their domain, stream rows get the starting count reduced by one step per row and the expected digest only on their last row. A stream with more rows than its starting count allows is rejected rather than recorded.",
 ["inputs","histories"],
 "one call of up to 3 two-to-one rows or 4 stream rows and four two-call sequences (thorough: all 78 sequences of up to three calls) with every 64-bit starting count, every nonzero step, every digest option and all contents, bit-precisely; all 78 sequences, and streams of 20 lengths up to 257 rows, at boundary counts with symbolic contents. The deprecated builders, which record no control, are included: a missing control reads as zero.",
 "The existing tests build two tables with fixed counts; arithmetic at the boundaries of the count and alignment after mixed calls is not sampled.",
 [PC+"hash.rs"],
 [("fixed_inputs, stream_inputs, stream_inputs_with_check",PC+"hash.rs")],
 observe=["PoseidonHashTable fields"])

prop("C18","In-circuit hash gadget agrees with the native hash",
 "For every fixed-length message, the in-circuit hash gadget yields a witness that satisfies the circuit and whose output equals the native fixed-length hash of the same message; and no satisfying witness with the same message cells has a different output.",
 ["inputs"],
 "all messages (symbolic) of length 1..=8 (plain parameters and Pallas: 1..=5; thorough: up to 32) at width 3, rate 2 with Pallas and BN254 parameters over the row-per-round chip.",
 "The circuit tests hash a few concrete messages of lengths 2 and 3 and do not build here.",
 [PC+"poseidon.rs",PC+"poseidon/pow5.rs"],
 [("Sponge/Hash gadget",PC+"poseidon.rs"),("initial_state, add_input",PC+"poseidon/pow5.rs")],
 observe=["poseidon::Hash::hash"])

prop("C19","The declared row budget covers what the circuit uses",
 "For every table and either permutation chip, the number of rows declared as the minimum requirement is at least the number of rows each permutation block of the table occupies in total, and each block occupies no more than the declared block size.",
 ["inputs","configurations"],
 "rows used by 1..=12 permutations (thorough: 64) from the synthesised circuit and by any number up to 2^57 by linear arithmetic over an unknown count; declared rows of every table length up to 2^40 bit-precisely; both chips; builds short, none (which is the known finding) and circuit without default features.",
 "Tests choose a generous fixed circuit size, so an understated budget is never noticed.",
 [PB+"hash.rs",PC+"hash.rs"],
 [("hash_block_size",PB+"hash.rs"),("minimum_row_require",PC+"hash.rs")],
 observe=["PoseidonHashTable::minimum_row_require","Hashable::hash_block_size"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
