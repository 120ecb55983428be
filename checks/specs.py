"""What each check builds, encodes and claims."""
import bits
import build

BASE = ["poseidon-base/src/" + f for f in ("lib.rs", "hash.rs", "params.rs", "primitives.rs", "primitives/p128pow5t3.rs", "primitives/p128pow5t3_compact.rs", "primitives/grain.rs", "primitives/mds.rs", "primitives/bn256/fp.rs", "primitives/bn256/mod.rs", "primitives/pasta/fp.rs")]

S, N, L, T = ("short",), (), ("legacy", "short"), ("short", "test")

ENGINE = ("The crate's own sources are compiled against a stand-in halo2curves whose field elements are terms; running a public entry point "
          "on symbolic arguments executes the real code and yields its result as a term over all inputs, one run per feasible branch outcome. "
          "Equality with the specified term is decided by congruence closure plus lemmas; every lemma and every obligation ends in Z3 queries "
          "(uninterpreted ring terms, polynomial identities). A difference yields a model, which is replayed on the crate built with the real halo2curves. ")
ASSUME = ["field operations of halo2curves implement prime-field arithmetic for the stated moduli (the stand-in replaces them; models of explored paths are replayed on the real arithmetic every run)",
          "x -> x^5 is a bijection on the field (gcd(5, p-1) = 1 is checked by computation)",
          "rustc compiles the sources the same way against the stand-in and the real field crate",
          "where code inspects the bytes or bits of a symbolic element without an equality test, the run continues with the model's value and is counted as an escape (totals.escapes); such inspection is covered for the models explored only"]


class Spec:
    def __init__(self, variants, functions, quick, thorough, outside, note, explanation="", assumptions=(), files=BASE, builder=None, technique="symbolic execution of the real Rust code over a term field, SMT (Z3) equivalence with the specified result", bits=None, tvariants=None):
        self.bits = bits
        self.tvariants = tvariants or variants
        self.variants, self.functions, self.q, self.t, self.outside = variants, functions, quick, thorough, outside
        self.note, self.explanation, self.assumptions, self.files, self.technique = note, explanation or ENGINE, list(assumptions) or ASSUME, files, technique
        self.builder = builder or (lambda kind, v: build.base_binary(kind, v))

    def bounds(self, tier):
        return self.q if tier == "quick" else self.t


FLIPS = " Branches on symbolic values: every feasible outcome up to the per-scenario flip and path limits reported in runs[].capped_flips."
SPECS = {
    "C01": Spec([S, N, L], ["primitives::permute", "Hash::permute", "P128Pow5T3::{sbox,constants}", "P128Pow5T3Compact::{sbox,constants}", "CachedSpec::cached_*", "CachedConstants::cached_*", "bn256 P128Pow5T3Constants"],
                "all states in Fr^3, 65 rounds, no input bound; plain, folded and cached parameterisations; builds short, none, legacy." + FLIPS, "as quick, more native validation runs." + FLIPS, "other fields and widths (C02, C07)",
                "Every state: the returned words are shown equal to the reference permutation generated independently (Grain and Cauchy in the checker)."),
    "C02": Spec([S, N], ["P128Pow5T3Compact::constants", "mat_mul / vec_accumulate / vec_remove_tail", "P128Pow5T3::constants", "primitives::permute"],
                "all states, round constants and matrices symbolic; partial rounds 1..=8, 56, 57, 60." + FLIPS, "also partial rounds 9, 10, 16, 31-33, 55, 58, 63, 64, 100, 120." + FLIPS, "numbers of partial rounds not listed; widths other than 3 (the code is width 3)",
                "Universal in constants, matrices and states; bounded in the number of partial rounds."),
    "C03": Spec([("short", "test"), N], ["primitives::permute", "constants().2", "cached_mds_inv", "bn256 mds_inv", "pasta mds_inv"],
                "all states and vectors, no bound." + FLIPS, "as quick." + FLIPS, "none known", "Every state is recovered exactly by the inverse rounds; uses that x^5 has a unique root."),
    "C04": Spec([S, N, L], ["Hashable::hash_with_domain", "Hashable::hash", "Hashable::hasher", "Hash::hash", "Sponge::new/absorb/finish_absorbing/squeeze", "ConstantLengthIden3::{layout,padding,update_capacity}"],
                "all left, right, domain; coincidences explored through the code's own branches; seven constant domains." + FLIPS, "as quick." + FLIPS, "none known", "Oracle: one application of the crate's own permutation (whose correctness is C01)."),
    "C05": Spec([S, N, L], ["MessageHashable::hash_msg", "Hash::hash_with_cap", "VariableLengthIden3::padding", "Sponge::absorb/finish_absorbing/squeeze"],
                "message lengths 1..=24, 31-33, 63-65, 127-129, 256, 257, symbolic elements; capacities: default, 0, 1, 2^64-1, 2^64, 2^127, 2^128-1 for lengths <= 8, default and one other above." + FLIPS,
                "lengths 1..=300, 511-513, 1023-1025, 2048, 2049." + FLIPS, "other lengths; empty messages (the API panics)", "Oracle: direct absorption with the crate's own permutation."),
    "C06": Spec([S, N, L], ["MessageHashable::hash_msg", "HASHABLE_DOMAIN_SPEC", "Hash::hash_with_cap", "Sponge::update_capacity", "Sponge::absorb / finish_absorbing up to the first S-box"],
                "bit-precise (CBMC): every 128-bit capacity and every message length 1..=2^42, all element values, up to the first S-box; by terms: 17 capacities at lengths 1..=4 and default capacities at 40 lengths, whole hash.",
                "as quick, with 53 capacities and default capacities at lengths 1..=300.", "messages of more than 2^42 elements (140 TB)", "The capacity word is compared as an integer just before the first S-box, for all capacities and lengths at once.",
                assumptions=ASSUME + ["the bit-precise runs replace the field by integers modulo 2^128, the parameter tables by zeros and once_cell / lazy_static by one-thread equivalents"],
                technique="bounded model checking of the real Rust code (Kani/CBMC, SAT) over all integers, with symbolic execution and Z3 for the whole hash", bits=bits.C06),
    "C07": Spec([T], ["Hash::{init,hash}", "ConstantLength", "ConstantLengthIden3", "Sponge", "poseidon_sponge", "permute (generic)"],
                "(width, rate) in (2,1),(3,1),(3,2),(4,2),(4,3),(5,3),(5,4),(9,8) x lengths 1..=12, 16, 17, 33 with a generic round function; BN254 and Pallas at (3,2)." + FLIPS, "as quick." + FLIPS, "other widths, rates and lengths", "Symbolic messages and domains for each listed instantiation."),
    "C08": Spec([S, N], ["hash_with_domain", "hash", "hash_msg", "hasher", "msg_hasher", "Hash::{clone,hash,hash_with_cap,permute}", "CachedConstants / CachedSpec", "Spec::constants"],
                "every sequence of 2 and 3 calls over 19 operations, mixed histories; repetitions of one operation up to 1500 calls; symbolic arguments." + FLIPS, "also every sequence of 4 calls, repetitions up to 3000." + FLIPS, "concurrent callers (OnceCell and lazy_static are trusted to initialise once); longer mixed histories", "The oracle is the same call in a fresh process, compared as terms over all arguments."),
    "C09": Spec([T], ["Grain::{new,load_next_8_bits,get_next_bit,next_field_element,next_field_element_without_rejection}", "Spec::constants (default)", "generate_constants path of the shipped parameters"],
                "complete streams for 11 (width, full, partial, index) combinations at the BN254 size with the accept/reject outcome of the first 6 chunks symbolic; shipped BN254 and Pallas constants." + FLIPS, "as quick." + FLIPS, "other field sizes and round numbers; more than 6 symbolic rejections", "The stream is bit-exact against an independent Grain; rejection outcomes are symbolic."),
    "C10": Spec([S], ["mds::generate_mds", "Spec::constants (default)"],
                "all sample values; T = 2..=4, index 0..=2; every pair of coinciding samples in the first draw and pairs in the first two draws, other equality patterns through the code's branches." + FLIPS, "also T = 5." + FLIPS, "larger T; three or more coincidences", "Matrix and inverse entries are shown equal to the closed Cauchy forms for all samples."),
}

PO = "poseidon-circuit/src/"
SEPT = [PO + "poseidon/septidon/" + f for f in ("control.rs", "full_round.rs", "instruction.rs", "loop_chip.rs", "params.rs", "septidon_chip.rs", "septuple_round.rs", "state.rs", "transition_round.rs", "util.rs")] + [PO + "poseidon/septidon.rs", PO + "poseidon.rs"]
POW5 = [PO + "poseidon/pow5.rs", PO + "poseidon.rs"]
TABLE = [PO + "hash.rs"]
CENGINE = ("poseidon-circuit's own sources are compiled against a stand-in halo2_proofs (recording gates, lookups, tables, selectors, fixed cells, copies, regions and assigned "
           "values) and the term field. configure() and synthesis run for real. For soundness every witness cell becomes an independent unknown, each enabled gate a polynomial equation over the cells "
           "its rows query (case splits on products, equations solved for one cell at a time, each solution and each lemma certified by Z3 queries), and the claim must follow from the equations; "
           "for completeness the assigned values are terms over the symbolic inputs and every gate, lookup and copy must hold for them. A failing claim is a satisfying assignment, re-evaluated on the build with the real field. ")
CASSUME = ASSUME[:3] + ["the stand-in halo2_proofs (1-row-granular sequential region placement, gate/lookup/copy semantics of PLONKish tables, no blinding rows) reflects the real crate, which is not available offline",
                        "soundness is that of the constraint system; the proving system and its commitment scheme are not examined"]
RF = ["ConstraintSystem::create_gate closures of the chip", "Layouter/Region calls of its synthesis"]


def circ(variants, functions, quick, thorough, outside, note, files, tvariants=None, bits=None, technique=None):
    return Spec(variants, functions, quick, thorough, outside, note, explanation=CENGINE, assumptions=CASSUME, files=files + ["poseidon-circuit/Cargo.toml"] + BASE,
                builder=build.circ_binary, tvariants=tvariants,
                bits=bits, technique=technique or "symbolic execution of the real circuit code recording its constraint system over unknown cells; Z3-certified derivation that constraints imply the claim")


P = ("parallel_syn", "short")
SPECS |= {
    "C11": circ([S], ["SeptidonChip::{configure,permute,permute_batch}", "FullRoundChip / LoopChip / TransitionRoundChip / SeptupleRoundChip ::configure", "ControlChip", "params::*", "util::*"],
                "all values of all witness cells; 1, 2, 3 and 9 blocks placed singly and in batch on one, three and all processors, in either order.", "as quick with 1..=9, 12 and 17 blocks.", "more blocks at once (blocks share no gate; region placement is sequential)",
                "Soundness of the 8-row chip.", SEPT),
    "C12": circ([S], ["SeptidonChip::{permute,permute_batch}", "instruction::* assignment", "FullState / LoopChip / TransitionRoundChip assignment"],
                "all input states; 1..=5, 7, 9, 16, 17, 33 and 40 permutations (from 9 on some inputs coincide) placed singly and in batch on one, three and all processors, in either order.", "as quick with 25 sizes up to 129.", "more permutations", "Completeness of the 8-row chip.", SEPT),
    "C13": circ([T], ["Pow5Chip::{configure,permute,initial_state,add_input}", "Pow5State::*"],
                "all cells / all input states; 1..=2 permutations, completeness also of 9; BN254 and Pallas; pad-and-add with every padding pattern.", "as quick with more permutations.", "other widths and rates of the generic chip",
                "Soundness and completeness of the row-per-round chip.", POW5),
    "C14": circ([S, ("base-legacy", "short")], ["SpongeConfig::configure_sub", "SpongeChip::load (witness-less)", "lookup tables and custom rows", "permutation chip gates"],
                "all values of all witness cells; complete tables of 1..=5 rows (8-row chip, step 62) and 1..=4 rows (row-per-round chip; steps 1, 32), and every window of 4 consecutive rows in tables of 20 rows, whose other rows are unconstrained unknowns.",
                "complete tables of 1..=8 (1..=6) rows, windows of 5 rows in tables of 60 (4 in 30).", "claims relating more than 5 rows of a larger table, except as they follow row by row", "Every satisfying assignment is a genuine table.", TABLE + SEPT + POW5,
                tvariants=[S, P, ("base-legacy", "short"), N]),
    "C15": circ([S, P], ["PoseidonHashTable::*", "SpongeChip::{construct,load,fill_hash_tbl_custom,fill_hash_tbl_body,fill_hash_tbl_body_partial}", "both permutation chips' assignment"],
                "all field contents; the table shapes of DESIGN.md (up to three entries of two-to-one hashes and 1..=3-row streams; streams of 5, 6, 9 and 17 rows among others; 40 mixed and 33 equal entries), capacities up to 4 above the table, 1, 2, 3 and 8 threads.", "more shapes and capacities, streams of up to 70 rows, up to 257 entries.", "other shapes and thread counts", "Completeness of the table.", TABLE + SEPT + POW5,
                tvariants=[S, P, ("base-legacy", "short"), N]),
    "C16": circ([S, P], ["SpongeChip::load", "permutation chips' assignment"], "all field contents; the shapes of C15 at equal capacity (up to 50 above the larger tables), compared cell by cell with the witness-less circuit of the same capacity.", "more shapes and capacities.", "other shapes", "Key independence of contents.", TABLE + SEPT + POW5,
                tvariants=[S, P, N]),
    "C17": circ([S], ["PoseidonHashTable::{fixed_inputs,stream_inputs,stream_inputs_with_check,constant_inputs,constant_inputs_with_check,table_size}"],
                "bit-precise (CBMC): every 64-bit starting count, every non-zero step, every digest option and all contents, for one call of up to 3 two-to-one rows or up to 4 stream rows and four two-call sequences; a stream of 2, 3 or 4 rows that is longer than its count allows never comes back as rows. "
                "At boundary counts with symbolic contents: the same sequences and 69 more of up to three calls, and streams of 20 lengths up to 257 rows (alone, behind as many two-to-one rows, and one row too long).",
                "as quick with all 78 sequences of up to three calls bit-precise.", "other lengths; step 0; a stream behind rows added without control (the builder panics)", "Counts as 64-bit words, rows aligned.", TABLE, bits=bits.C17,
                technique="bounded model checking of the real Rust code (Kani/CBMC, SAT) over all counts, steps and contents of bounded call sequences"),
    "C18": circ([T], ["poseidon::{Hash,Sponge}::*", "Pow5Chip::{initial_state,add_input,get_output}"], "all messages of length 1..=8 (1..=5 for the plain parameters and Pallas); soundness and completeness.", "as quick with 15 lengths up to 32.", "other lengths, widths, rates", "The gadget against the native sponge.", POW5),
    "C19": circ([S, N, ("nodef",)], ["PoseidonHashTable::minimum_row_require", "Hashable::hash_block_size", "permute_batch of the chip of the build"],
                "rows of 1..=12 permutations from the synthesised circuit, and any number up to 2^57 by linear arithmetic over one unknown; declared rows of every table length up to 2^40 bit-precisely.", "1..=64 permutations.", "the rows of the hash table itself (capacity is the caller's)", "Rows used against rows declared.", TABLE + SEPT + POW5, bits=bits.C19),
}

NOT_APPLICABLE = {}
