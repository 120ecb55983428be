//! C11, C12, C13, C18: the permutation chips and the hash gadget.
use crate::common::*;
use crate::env::*;
use crate::reference::{self as rf, Params};
use crate::solve::*;
use halo2_proofs::circuit::{AssignedCell, Layouter, RecordingLayouter, Value};
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem, Error};
use halo2curves::bn256::Fr;
use poseidon_base::hash::Hashable;
use poseidon_base::primitives::{Absorbing, CachedSpec, ConstantLength, Spec};
use poseidon_circuit::poseidon::{Hash, PaddedWord, PermuteChip, PoseidonSpongeInstructions, Pow5Chip, SeptidonChip, StateWord};

pub trait Fld: VField + ff_::FromUniformBytes<64> + Ord {}
impl<T: VField + ff_::FromUniformBytes<64> + Ord> Fld for T {}
pub use halo2curves::ff as ff_;

pub type Cells<F> = Vec<AssignedCell<F, F>>;

/// an input region: `n` rows in `cols`
pub fn inputs<F: Fld>(lay: &mut RecordingLayouter<F>, cols: &[Column<Advice>], vals: &[Vec<F>]) -> Vec<Cells<F>> {
    lay.assign_region(
        || "inputs",
        |mut r| {
            vals.iter()
                .enumerate()
                .map(|(n, row)| row.iter().enumerate().map(|(k, v)| r.assign_advice(|| "input", cols[k], n, || Value::known(*v))).collect::<Result<Vec<_>, Error>>())
                .collect::<Result<Vec<_>, _>>()
        },
    )
    .expect("input region")
}

pub struct Built<F: VField> {
    pub circ: Circ<F>,
    pub ins: Vec<Vec<Key>>,
    pub outs: Vec<Vec<Key>>,
    /// values of the returned cells
    pub vals: Vec<Vec<Option<F>>>,
}

/// circuit with one permutation of each state, in one call or one by one
pub fn permutations<F: Fld, S: Spec<F, 3, 2>, PC: PermuteChip<F, S, 3, 2>>(states: &[[F; 3]], batch: bool, order: usize, cpus: usize, witness: bool) -> Built<F> {
    let mut cs = ConstraintSystem::<F>::default();
    let ext = [0; 3].map(|_| cs.advice_column());
    for c in ext {
        cs.enable_equality(c);
    }
    let config = <PC as PermuteChip<F, S, 3, 2>>::configure(&mut cs);
    let mut lay = RecordingLayouter::new(&cs, witness);
    lay.rec.order = order;
    let cells = inputs(&mut lay, &ext, &states.iter().map(|s| s.to_vec()).collect::<Vec<_>>());
    let chip = <PC as PermuteChip<F, S, 3, 2>>::construct(config);
    let words: Vec<[PC::Word; 3]> = cells.iter().map(|c| [0, 1, 2].map(|k| PC::Word::from(c[k].clone()))).collect();
    let out: Vec<[PC::Word; 3]> = if batch {
        let all = |lay: &mut RecordingLayouter<F>| chip.permute_batch(lay, &words).expect("permute_batch");
        match cpus {
            0 => all(&mut lay),
            n => match crate::table::with_cpus(n, || all(&mut lay)) {
                Some(r) => r,
                None => all(&mut lay),
            },
        }
    } else {
        words.iter().map(|w| chip.permute(&mut lay, w).expect("permute")).collect()
    };
    check_plain("one result per permutation", out.len() == states.len(), || format!("{} results", out.len()));
    let out: Vec<Cells<F>> = out.into_iter().map(|s| s.into_iter().map(|w| w.into()).collect()).collect();
    // results must be usable elsewhere
    lay.assign_region(
        || "results",
        |mut r| {
            for (n, s) in out.iter().enumerate() {
                for (k, c) in s.iter().enumerate() {
                    c.copy_advice(|| "result", &mut r, ext[k], n)?;
                }
            }
            Ok(())
        },
    )
    .expect("copying results");
    let circ = Circ::new(cs, lay);
    let ins = cells.iter().map(|c| c.iter().map(|x| circ.cell(x)).collect()).collect();
    let outs = out.iter().map(|c| c.iter().map(|x| circ.cell(x)).collect()).collect();
    let vals = out.iter().map(|c| c.iter().map(|x| x.value().map(|v| *v).into_option()).collect()).collect();
    Built { circ, ins, outs, vals }
}

pub fn states<F: VField>(n: usize) -> Vec<[F; 3]> {
    // in larger circuits some states occur more than once
    (0..n).map(|b| if n > 8 { b * b % 7 } else { b }).map(|b| state::<F>(&format!("s{b}_"))).collect()
}

/// claims of a branch count only if the branch is a real assignment (native runs complete it first)
pub fn claims<F: VField>(b: &Branch<F>, f: impl FnOnce()) {
    if settled() {
        return;
    }
    #[cfg(feature = "real")]
    {
        let n = FAILS.lock().unwrap().len();
        f();
        if FAILS.lock().unwrap().len() > n && !b.complete() {
            FAILS.lock().unwrap().truncate(n);
        }
    }
    #[cfg(not(feature = "real"))]
    {
        let _ = b;
        f()
    }
}

fn sound<F: Fld, S: Spec<F, 3, 2>, PC: PermuteChip<F, S, 3, 2>>(params: fn() -> Params<F>, n: usize, (batch, order, cpus): How) {
    let s = states::<F>(n);
    let b = permutations::<F, S, PC>(&s, batch, order, cpus, false);
    let known: Vec<(Key, F)> = b.ins.iter().zip(&s).flat_map(|(k, v)| k.iter().copied().zip(v.iter().copied())).collect();
    let leaves = b.circ.solve("w", -2..b.circ.rows() + 2, &known, &[], &[], &mut |br| {
        claims(br, || {
            for (n, o) in b.outs.iter().enumerate() {
                let got: Vec<F> = o.iter().map(|k| br.get(*k)).collect();
                checks(&format!("output of permutation {n} in any satisfying assignment"), &got, &ref_perm(&params(), &s[n]));
            }
        })
    });
    check_plain("circuit has assignments", leaves > 0, || "no assignment satisfies the constraints".into());
}
fn complete<F: Fld, S: Spec<F, 3, 2>, PC: PermuteChip<F, S, 3, 2>>(params: fn() -> Params<F>, n: usize, (batch, order, cpus): How) {
    let s = states::<F>(n);
    let b = permutations::<F, S, PC>(&s, batch, order, cpus, true);
    for (n, v) in b.vals.iter().enumerate() {
        let want = ref_perm(&params(), &s[n]);
        for k in 0..3 {
            match v[k] {
                Some(x) => check(&format!("returned word {k} of permutation {n}"), x, want[k]),
                None => check_plain("returned word", false, || "unknown".into()),
            }
        }
    }
    Honest { circ: &b.circ, usable: b.circ.rows() + 10 }.check_all("honest assignment");
}

type SF = <Fr as Hashable>::SpecType;
/// in batch?, order in which regions run, processors seen (0: all)
type How = (bool, usize, usize);
fn modes() -> [(&'static str, How); 5] {
    [("single", (false, 0, 0)), ("batch", (true, 0, 0)), ("batch reversed", (true, 1, 0)), ("batch on one processor", (true, 0, 1)), ("batch reversed on three processors", (true, 1, 3))]
}

pub fn c11(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    for n in if thorough { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17] } else { vec![1, 2, 3, 9] } {
        for (name, how) in modes() {
            v.push(Scen::new(format!("septidon {name} x{n}"), move || sound::<Fr, SF, SeptidonChip>(rf::bn254, n, how)));
        }
    }
    v
}
pub fn c12(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    let sizes: &[usize] = if thorough { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 129] } else { &[1, 2, 3, 4, 5, 7, 9, 16, 17, 33, 40] };
    for &n in sizes {
        for (name, how) in modes() {
            v.push(Scen::new(format!("septidon {name} x{n}"), move || complete::<Fr, SF, SeptidonChip>(rf::bn254, n, how)));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------- C13
/// pad-and-add: state, two input words, each given by a cell or as padding
fn add_input<F: Fld, S: Spec<F, 3, 2>>(pads: [bool; 2], witness: bool) {
    let mut cs = ConstraintSystem::<F>::default();
    let ext = [0; 5].map(|_| cs.advice_column());
    for c in ext {
        cs.enable_equality(c);
    }
    let config = <Pow5Chip<F, 3, 2> as PermuteChip<F, S, 3, 2>>::configure(&mut cs);
    let mut lay = RecordingLayouter::new(&cs, witness);
    let s: Vec<F> = (0..5).map(|k| sym::<F>(&format!("x{k}"))).collect();
    let cells = inputs(&mut lay, &ext, &[s.clone()]).remove(0);
    let chip = <Pow5Chip<F, 3, 2> as PermuteChip<F, S, 3, 2>>::construct(config);
    let word = |k: usize| StateWord(cells[k].clone());
    let padding = [F::from(7u64), F::ZERO];
    let mode = Absorbing([0, 1].map(|k| Some(if pads[k] { PaddedWord::Padding(padding[k]) } else { PaddedWord::Message(cells[3 + k].clone()) })));
    let out = PoseidonSpongeInstructions::<F, S, ConstantLength<2>, 3, 2>::add_input(&chip, &mut lay, &[word(0), word(1), word(2)], &mode).expect("add_input");
    let circ = Circ::new(cs, lay);
    let add: Vec<F> = (0..2).map(|k| if pads[k] { padding[k] } else { s[3 + k] }).collect();
    let want = in_ref(|| vec![s[0] + add[0], s[1] + add[1], s[2]]);
    let outs: Vec<Key> = out.iter().map(|w| circ.cell(&w.0)).collect();
    if witness {
        for k in 0..3 {
            check(&format!("added word {k}"), out[k].0.value().map(|x| *x).into_option().expect("value"), want[k]);
        }
        Honest { circ: &circ, usable: circ.rows() + 3 }.check_all("honest pad-and-add");
    } else {
        let known: Vec<(Key, F)> = cells.iter().map(|c| circ.cell(c)).zip(s.iter().copied()).collect();
        let n = circ.solve("w", -2..circ.rows() + 2, &known, &[], &[], &mut |br| {
            claims(br, || checks("state after adding, in any satisfying assignment", &outs.iter().map(|k| br.get(*k)).collect::<Vec<_>>(), &want))
        });
        check_plain("circuit has assignments", n > 0, || "none".into());
    }
}

macro_rules! pow5 {
    ($v:ident, $name:expr, $f:ty, $s:ty, $params:expr, $n:expr) => {
        for n in 1..=$n {
            $v.push(Scen::new(format!("{} soundness x{n}", $name), move || sound::<$f, $s, Pow5Chip<$f, 3, 2>>($params, n, (n % 2 == 0, 0, 0))));
            $v.push(Scen::new(format!("{} completeness x{n}", $name), move || complete::<$f, $s, Pow5Chip<$f, 3, 2>>($params, n, (n % 2 == 0, 0, 0))));
        }
        for pads in [[false, false], [false, true], [true, false], [true, true]] {
            for w in [false, true] {
                $v.push(Scen::new(format!("{} pad-and-add {pads:?} {}", $name, if w { "completeness" } else { "soundness" }), move || add_input::<$f, $s>(pads, w)));
            }
        }
    };
}
pub fn c13(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    let n = if thorough { 5 } else { 2 };
    pow5!(v, "hash spec", Fr, SF, rf::bn254, n);
    for n in if thorough { vec![9, 17, 33] } else { vec![9] } {
        v.push(Scen::new(format!("hash spec completeness x{n}"), move || complete::<Fr, SF, Pow5Chip<Fr, 3, 2>>(rf::bn254, n, (true, 0, 0))));
    }
    pow5!(v, "plain BN254", Fr, poseidon_base::primitives::P128Pow5T3<Fr>, rf::bn254, 1);
    pow5!(v, "folded BN254", Fr, poseidon_base::primitives::P128Pow5T3Compact<Fr>, rf::bn254, 1);
    #[cfg(feature = "test")]
    {
        use halo2curves::pasta::Fp;
        pow5!(v, "plain Pallas", Fp, poseidon_base::primitives::P128Pow5T3<Fp>, rf::pallas, n);
    }
    v
}

// ---------------------------------------------------------------------------------------------- C18
fn gadget<F: Fld, S: Spec<F, 3, 2>, N: CachedSpec<F, 3, 2>, const L: usize>(params: fn() -> Params<F>, witness: bool) {
    let mut cs = ConstraintSystem::<F>::default();
    let ext = [0; 1].map(|_| cs.advice_column());
    let constants = cs.fixed_column();
    cs.enable_constant(constants);
    cs.enable_equality(ext[0]);
    let config = <Pow5Chip<F, 3, 2> as PermuteChip<F, S, 3, 2>>::configure(&mut cs);
    let mut lay = RecordingLayouter::new(&cs, witness);
    let msg: Vec<F> = (0..L).map(|k| sym::<F>(&format!("m{k}"))).collect();
    let cells: Cells<F> = inputs(&mut lay, &ext, &msg.iter().map(|x| vec![*x]).collect::<Vec<_>>()).into_iter().flatten().collect();
    let chip = <Pow5Chip<F, 3, 2> as PermuteChip<F, S, 3, 2>>::construct(config);
    let keys: Vec<halo2_proofs::circuit::Cell> = cells.iter().map(|c| c.cell()).collect();
    let message: [AssignedCell<F, F>; L] = cells.try_into().unwrap();
    let h = Hash::<F, Pow5Chip<F, 3, 2>, S, ConstantLength<L>, 3, 2>::init(chip, lay.namespace(|| "init")).expect("init");
    let out = h.hash(lay.namespace(|| "hash"), message).expect("hash");
    let native = || {
        let m: [F; L] = msg.clone().try_into().unwrap();
        poseidon_base::primitives::Hash::<F, N, ConstantLength<L>, 3, 2>::init().hash(m)
    };
    let circ = Circ::new(cs, lay);
    let o = circ.cell(&out);
    // both are compared with the specified sponge
    let want = in_ref(|| {
        let p = params();
        let cap = F::from_u128((L as u128) << 64);
        rf::fixed_hash(&|s: &[F]| ref_perm(&p, s), 3, 2, &msg, cap, false)
    });
    check("native hash", native(), want);
    if witness {
        check("gadget output", out.value().map(|x| *x).into_option().expect("value"), want);
        Honest { circ: &circ, usable: circ.rows() + 3 }.check_all("honest gadget assignment");
    } else {
        let known: Vec<(Key, F)> = keys.iter().map(|c| key_of(c.column, circ.rec.regions[c.region_index.0].start + c.row_offset)).zip(msg.iter().copied()).collect();
        let n = circ.solve("w", -2..circ.rows() + 2, &known, &[], &[], &mut |br| {
            claims(br, || check("gadget output in any satisfying assignment", br.get(o), want))
        });
        check_plain("circuit has assignments", n > 0, || "none".into());
    }
}
pub fn c18(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    macro_rules! add {
        ($name:expr, $p:expr, $f:ty, $s:ty, $($l:expr),*) => {
            $(for w in [false, true] {
                v.push(Scen::new(format!("{} L={} {}", $name, $l, if w { "completeness" } else { "soundness" }), move || gadget::<$f, $s, poseidon_base::hash::HashSpec<$f>, $l>($p, w)));
            })*
        };
    }
    add!("BN254", rf::bn254, Fr, SF, 1, 2, 3, 4, 5, 6, 7, 8);
    add!("plain BN254", rf::bn254, Fr, poseidon_base::primitives::P128Pow5T3<Fr>, 1, 2, 3, 4, 5);
    #[cfg(feature = "test")]
    {
        use halo2curves::pasta::Fp;
        add!("Pallas", rf::pallas, Fp, poseidon_base::primitives::P128Pow5T3<Fp>, 1, 2, 3, 4, 5);
        if thorough {
            add!("Pallas", rf::pallas, Fp, poseidon_base::primitives::P128Pow5T3<Fp>, 6, 7, 8, 9, 12, 16, 17);
        }
    }
    if thorough {
        add!("BN254", rf::bn254, Fr, SF, 9, 10, 11, 12, 16, 17, 32);
    }
    v
}
