//! C14, C15, C16, C19: the hash table circuit.
use crate::common::*;
use crate::env::*;
use crate::perm::{claims, permutations};
use crate::reference as rf;
use crate::solve::*;
use halo2_proofs::circuit::RecordingLayouter;
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem, Expression};
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_base::hash::{Hashable, MessageHashable, HASHABLE_DOMAIN_SPEC};
use poseidon_circuit::hash::{PoseidonHashTable, SpongeChip, SpongeConfig};
use poseidon_circuit::poseidon::{PermuteChip, Pow5Chip, SeptidonChip};
use std::collections::BTreeSet;

type SF = <Fr as Hashable>::SpecType;
pub trait Chip3: PermuteChip<Fr, SF, 3, 2> {
    const NAME: &'static str;
}
impl Chip3 for SeptidonChip {
    const NAME: &'static str = "septidon";
}
impl Chip3 for Pow5Chip<Fr, 3, 2> {
    const NAME: &'static str = "pow5";
}
pub const D: u128 = HASHABLE_DOMAIN_SPEC;

/// how the table is assigned (meaningful in builds with parallel_syn)
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Serial,
    /// number of processors seen, order in which the regions run
    Parallel(usize, usize),
}

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
}
/// runs `f` with `n` of the processors this process may use; None if there are fewer
pub fn with_cpus<R>(n: usize, f: impl FnOnce() -> R) -> Option<R> {
    let mut old = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, old.as_mut_ptr()) };
    let mut new = [0u64; 16];
    let mut left = n;
    for b in 0..1024 {
        if left > 0 && old[b / 64] >> (b % 64) & 1 == 1 {
            new[b / 64] |= 1 << (b % 64);
            left -= 1;
        }
    }
    if left > 0 {
        return None;
    }
    unsafe { sched_setaffinity(0, 128, new.as_ptr()) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { sched_setaffinity(0, 128, old.as_ptr()) };
    match r {
        Ok(r) => Some(r),
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub struct Table {
    pub circ: Circ<Fr>,
    pub cols: [Column<Advice>; 6],
    /// enabled rows
    pub rows: Vec<i64>,
    /// column that enables rows
    pub q: usize,
}
impl Table {
    pub fn key(&self, n: usize, col: usize) -> Key {
        (0, self.cols[col].index(), self.rows[n])
    }
}

/// the table circuit, with `calcs` entries of capacity
pub fn table<PC: Chip3, const STEP: usize>(data: &PoseidonHashTable<Fr>, calcs: usize, mode: Mode, witness: bool) -> Table
where
    PC::Config: Sync,
{
    let mut cs = ConstraintSystem::<Fr>::default();
    let q = cs.fixed_column();
    let cols = [0; 6].map(|_| cs.advice_column());
    let config = SpongeConfig::<Fr, PC>::configure_sub(&mut cs, (q, cols), STEP);
    check_plain("public columns", config.hash_tbl_cols() == cols && config.commitment_index() == cols.map(|c| c.index()), || "columns differ from the given ones".into());
    let mut lay = RecordingLayouter::new(&cs, witness);
    let chip = SpongeChip::<Fr, STEP, PC>::construct(config, data, calcs);
    let run = |lay: &mut RecordingLayouter<Fr>| chip.load(lay).expect("load");
    match mode {
        Mode::Serial => {
            std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", "serial");
            run(&mut lay)
        }
        Mode::Parallel(n, order) => {
            std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", "parallel");
            lay.rec.order = order;
            if with_cpus(n, || run(&mut lay)).is_none() {
                run(&mut lay)
            }
        }
    }
    let mut rows: Vec<i64> = lay.rec.fixed.iter().filter(|(k, v)| k.0 == q.index() && **v == Fr::ONE).map(|(k, _)| k.1 as i64).collect();
    rows.sort();
    Table { circ: Circ::new(cs, lay), cols, rows, q: q.index() }
}

// ---------------------------------------------------------------------------------------------- C14
fn at(k: Key) -> Expression<Fr> {
    Expression::Advice(halo2_proofs::plonk::AdviceQuery { column_index: k.1, rotation: halo2_proofs::poly::Rotation(k.2 as i32) })
}

fn step_f(step: usize) -> Fr {
    Fr::from_u128_(step as u128 * D)
}
trait FromU128 {
    fn from_u128_(v: u128) -> Self;
}
impl FromU128 for Fr {
    fn from_u128_(v: u128) -> Fr {
        Fr::from_l([v as u64, (v >> 64) as u64, 0, 0])
    }
}

fn genuine<PC: Chip3, const STEP: usize>(n: usize, mode: Mode)
where
    PC::Config: Sync,
{
    let t = table::<PC, STEP>(&PoseidonHashTable::default(), n, mode, false);
    check_plain("enabled rows", t.rows.len() == n && t.rows.windows(2).all(|w| w[1] == w[0] + 1), || format!("{:?}", t.rows));
    let params = rf::bn254::<Fr>();
    // the last control of a message is the free one: it is the one looked up
    let prio: Vec<Key> = (0..n).rev().map(|r| t.key(r, 3)).chain((0..n).flat_map(|r| [4, 1, 2].map(|c| t.key(r, c)))).collect();
    let mut patterns: BTreeSet<Vec<bool>> = BTreeSet::new();
    t.circ.solve("w", -2..t.circ.rows() + 2, &[], &prio, &[], &mut |b| {
        let flags: Vec<K<Fr>> = (0..n).map(|r| b.getk(t.key(r, 5))).collect();
        claims(b, || {
            let bool_ok = flags.iter().all(|k| k.c && (k.v == Fr::ZERO || k.v == Fr::ONE));
            check_plain("head flags are Boolean", bool_ok, || "a head flag is not forced to 0 or 1".into());
            if !bool_ok {
                return;
            }
            let head: Vec<bool> = flags.iter().map(|k| k.v == Fr::ONE).collect();
            let name = format!("heads {}", head.iter().map(|h| if *h { '1' } else { '0' }).collect::<String>());
            check_plain(&format!("{name}: first row is a head"), head[0], || "first row continues".into());
            check_plain(&format!("{name}: last row is a head"), head[n - 1], || "last row continues a message".into());
            for c in 1..4 {
                check(&format!("{name}: last row is empty (column {c})"), b.get(t.key(n - 1, c)), Fr::ZERO);
            }
            if !head[0] || !head[n - 1] {
                return;
            }
            patterns.insert(head.clone());
            let cell = |r: usize, c: usize| b.get(t.key(r, c));
            let mut a = 0;
            while a + 1 < n {
                let mut e = a + 1;
                while !head[e] {
                    e += 1;
                }
                // rows a..e form one entry
                let digest = in_ref(|| {
                    let mut s = vec![cell(a, 3) + cell(a, 4), cell(a, 1), cell(a, 2)];
                    s = ref_perm(&params, &s);
                    for r in a + 1..e {
                        s = vec![s[0] + cell(r, 4), s[1] + cell(r, 1), s[2] + cell(r, 2)];
                        s = ref_perm(&params, &s);
                    }
                    s[0]
                });
                for r in a..e {
                    check(&format!("{name}: digest in row {r}"), cell(r, 0), digest);
                }
                for r in a + 1..e {
                    let want = in_ref(|| cell(r - 1, 3) - step_f(STEP));
                    check(&format!("{name}: control of row {r}"), cell(r, 3), want);
                }
                looked_up::<STEP>(&t, b, e, &format!("{name}: control of row {}", e - 1));
                a = e;
            }
        })
    });
    let all = BTreeSet::from_iter((0..1u32 << (n - 1)).filter(|m| m & 1 == 1 || n == 1).map(|m| (0..n).map(|r| r == n - 1 || m >> r & 1 == 1).collect::<Vec<bool>>()));
    check_plain("every arrangement of entries is possible", patterns == all || cfg!(feature = "real"), || format!("{} of {} arrangements", patterns.len(), all.len()));
    // a continuation row never has control zero
    for r in 1..n {
        let zero = [at(t.key(r, 3)), at(t.key(r, 5))];
        t.circ.solve("w", -2..t.circ.rows() + 2, &[], &prio, &zero, &mut |b| {
            claims(b, || check_plain(&format!("continuation row {r} with control zero"), false, || "possible".into()))
        });
    }
}
/// the same at every place of a longer table: rows start..start+len, the first of them a head, `n` rows in all.
/// Only the constraints of these rows and what hangs together with them are used.
fn placed<PC: Chip3, const STEP: usize>(n: usize, starts: std::ops::Range<usize>, len: usize, mode: Mode)
where
    PC::Config: Sync,
{
    let t = table::<PC, STEP>(&PoseidonHashTable::default(), n, mode, false);
    check_plain("enabled rows", t.rows.len() == n && t.rows.windows(2).all(|w| w[1] == w[0] + 1), || format!("{:?}", t.rows));
    let params = rf::bn254::<Fr>();
    for start in starts {
        let prio: Vec<Key> = (start..start + len).rev().map(|r| t.key(r, 3)).chain((start..start + len).flat_map(|r| [4, 1, 2].map(|c| t.key(r, c)))).collect();
        let rows: Vec<i64> = (start..start + len).map(|r| t.rows[r]).collect();
        let focus = Focus { cells: rows.iter().enumerate().flat_map(|(k, _)| (0..6).map(|c| t.key(start + k, c)).collect::<Vec<_>>()).collect(), switch: t.q, rows };
        let first = [at(t.key(start, 5)) - Expression::Constant(Fr::ONE)];
        let mut patterns: BTreeSet<Vec<bool>> = BTreeSet::new();
        t.circ.solve_near("w", -2..t.circ.rows() + 2, &[], &prio, &first, Some(&focus), &mut |b| {
            let head: Vec<Option<bool>> = (start..start + len).map(|r| b.getk(t.key(r, 5))).map(|k| if k.c && (k.v == Fr::ZERO || k.v == Fr::ONE) { Some(k.v == Fr::ONE) } else { None }).collect();
            claims(b, || {
                check_plain(&format!("row {start}: head flags are Boolean"), head.iter().all(|h| h.is_some()), || "a head flag is not forced to 0 or 1".into());
                let Some(head) = head.into_iter().collect::<Option<Vec<bool>>>() else { return };
                patterns.insert(head.clone());
                let name = format!("row {start}, heads {}", head.iter().map(|h| if *h { '1' } else { '0' }).collect::<String>());
                let cell = |r: usize, c: usize| b.get(t.key(start + r, c));
                let mut a = 0;
                while a < len {
                    let mut e = a + 1;
                    while e < len && !head[e] {
                        e += 1;
                    }
                    for r in a + 1..e {
                        check(&format!("{name}: digest of row {r}"), cell(r, 0), cell(a, 0));
                        let want = in_ref(|| cell(r - 1, 3) - step_f(STEP));
                        check(&format!("{name}: control of row {r}"), cell(r, 3), want);
                    }
                    // complete only if another head follows
                    if e < len {
                        let digest = in_ref(|| {
                            let mut s = vec![cell(a, 3) + cell(a, 4), cell(a, 1), cell(a, 2)];
                            s = ref_perm(&params, &s);
                            for r in a + 1..e {
                                s = vec![s[0] + cell(r, 4), s[1] + cell(r, 1), s[2] + cell(r, 2)];
                                s = ref_perm(&params, &s);
                            }
                            s[0]
                        });
                        check(&format!("{name}: digest"), cell(a, 0), digest);
                        looked_up::<STEP>(&t, b, e + start, &format!("{name}: control of row {}", e - 1));
                    }
                    a = e;
                }
            })
        });
        check_plain(&format!("row {start}: every arrangement is possible"), cfg!(feature = "real") || patterns.iter().filter(|p| start + len < n || p[len - 1]).count() == 1 << (len - if start + len < n { 1 } else { 2 }), || format!("{patterns:?}"));
    }
}
/// the control before the head at row `e` is looked up among 0..=STEP
fn looked_up<const STEP: usize>(t: &Table, b: &Branch<Fr>, e: usize, label: &str) {
    let prev = b.get(t.key(e - 1, 3));
    let ok = t.circ.cs.lookups.iter().filter(|l| l.input.len() == 1 && is_steps(t, &l.table[0], STEP)).map(|l| b.value_of(&l.input[0], t.rows[e]).v).find(|v| value(v) == value(&prev));
    match ok {
        Some(v) => check(&format!("{label} is at most one step"), v, prev),
        None => check_plain(&format!("{label} is at most one step"), false, || "not looked up".into()),
    }
}
fn is_steps(t: &Table, e: &Expression<Fr>, step: usize) -> bool {
    let Expression::Fixed(q) = e else { return false };
    let Some(v) = t.circ.rec.tables.get(&q.column_index()) else { return false };
    let got: BTreeSet<_> = v.iter().map(value).collect();
    got == (0..=step).map(|k| value(&Fr::from_u128_(k as u128 * D))).collect()
}

pub fn modes(all: bool) -> Vec<Mode> {
    let mut v = vec![Mode::Serial];
    if cfg!(feature = "parallel_syn") {
        v.push(Mode::Parallel(1, 0));
        v.push(Mode::Parallel(3, 1));
        if all {
            v.push(Mode::Parallel(2, 1));
            v.push(Mode::Parallel(8, 0));
        }
    }
    v
}
pub fn c14(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    fn add<PC: Chip3 + 'static, const STEP: usize>(v: &mut Vec<Scen>, n: usize, mode: Mode)
    where
        PC::Config: Sync,
    {
        v.push(Scen::new(format!("{} step {STEP} table of {n} rows {mode:?}", PC::NAME), move || genuine::<PC, STEP>(n, mode)));
    }
    for mode in modes(false) {
        for n in 1..=if thorough { 8 } else { 5 } {
            add::<SeptidonChip, 62>(&mut v, n, mode);
        }
        for n in 1..=if thorough { 6 } else { 4 } {
            add::<Pow5Chip<Fr, 3, 2>, 62>(&mut v, n, mode);
            add::<SeptidonChip, 32>(&mut v, n, mode);
            add::<SeptidonChip, 1>(&mut v, n, mode);
        }
    }
    fn place<PC: Chip3 + 'static, const STEP: usize>(v: &mut Vec<Scen>, n: usize, len: usize, mode: Mode)
    where
        PC::Config: Sync,
    {
        let last = n - len;
        for a in (0..=last).step_by(3) {
            let e = (a + 3).min(last + 1);
            v.push(Scen::new(format!("{} step {STEP} rows {a}..{} of {n} {mode:?}", PC::NAME, e + len - 1), move || placed::<PC, STEP>(n, a..e, len, mode)));
        }
    }
    for mode in modes(false) {
        place::<SeptidonChip, 62>(&mut v, if thorough { 60 } else { 20 }, if thorough { 5 } else { 4 }, mode);
        if thorough {
            place::<Pow5Chip<Fr, 3, 2>, 62>(&mut v, 30, 4, mode);
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------- C15, C16
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Entry {
    /// two-to-one; domain: 0 zero, 1 arbitrary
    Fixed(u8),
    /// message of that many rows, starting count; last flag: expected digest given
    Stream(usize, u64),
}
use Entry::*;

pub struct Built2 {
    pub data: PoseidonHashTable<Fr>,
    /// per row: inputs, control, domain, head, digest
    pub want: Vec<([Fr; 2], Fr, Fr, bool, Fr)>,
}
fn fill(entries: &[Entry], step: usize, checked: bool) -> Built2 {
    let params = rf::bn254::<Fr>();
    let mut data = PoseidonHashTable::<Fr>::default();
    let mut want = vec![];
    for (n, e) in entries.iter().enumerate() {
        // many entries: some contents occur more than once
        let n = if entries.len() > 6 { n % 5 } else { n };
        match *e {
            Fixed(d) => {
                let inp = [sym::<Fr>(&format!("e{n}a")), sym::<Fr>(&format!("e{n}b"))];
                let dom = if d == 0 { Fr::ZERO } else { sym::<Fr>(&format!("e{n}d")) };
                let digest = in_ref(|| ref_perm(&params, &[dom, inp[0], inp[1]])[0]);
                let api = Fr::hash_with_domain(inp, dom);
                check(&format!("entry {n}: native two-to-one hash"), api, digest);
                data.fixed_inputs(&[(inp, dom, checked.then_some(api))]);
                want.push((inp, Fr::ZERO, dom, true, digest));
            }
            Stream(rows, start) => {
                let inp: Vec<[Fr; 2]> = (0..rows).map(|r| [sym::<Fr>(&format!("e{n}r{r}a")), sym::<Fr>(&format!("e{n}r{r}b"))]).collect();
                let digest = in_ref(|| {
                    let mut s = vec![Fr::from_u128_(start as u128 * D), Fr::ZERO, Fr::ZERO];
                    for i in &inp {
                        s = ref_perm(&params, &[s[0], s[1] + i[0], s[2] + i[1]]);
                    }
                    s[0]
                });
                let msg: Vec<Fr> = inp.iter().flatten().copied().collect();
                let api = Fr::hash_msg(&msg, Some(start as u128 * D));
                check(&format!("entry {n}: native message hash"), api, digest);
                if checked {
                    data.stream_inputs_with_check(&inp, Some(api), start, step);
                } else {
                    data.stream_inputs(&inp, start, step);
                }
                for (r, i) in inp.iter().enumerate() {
                    let c = start as u128 - (r * step) as u128;
                    want.push((*i, Fr::from_u128_(c * D), Fr::ZERO, r == 0, digest));
                }
            }
        }
    }
    Built2 { data, want }
}

fn assignable<PC: Chip3, const STEP: usize>(entries: &[Entry], spare: usize, mode: Mode, checked: bool)
where
    PC::Config: Sync,
{
    let b = fill(entries, STEP, checked);
    let calcs = b.want.len() + spare;
    let t = table::<PC, STEP>(&b.data, calcs, mode, true);
    check_plain("enabled rows", t.rows.len() == calcs && t.rows.windows(2).all(|w| w[1] == w[0] + 1), || format!("{:?}", t.rows));
    let params = rf::bn254::<Fr>();
    let pad = in_ref(|| ref_perm(&params, &[Fr::ZERO; 3])[0]);
    for r in 0..calcs {
        let (inp, ctrl, dom, head, digest) = b.want.get(r).copied().unwrap_or(([Fr::ZERO; 2], Fr::ZERO, Fr::ZERO, true, pad));
        for (c, w) in [digest, inp[0], inp[1], ctrl, dom, if head { Fr::ONE } else { Fr::ZERO }].into_iter().enumerate() {
            let k = t.key(r, c);
            let l = format!("table row {r} column {c}");
            match t.circ.rec.advice.get(&(k.1, k.2 as usize)) {
                Some(v) => check(&l, *v, w),
                None => check_plain(&l, false, || "not assigned".into()),
            }
        }
    }
    Honest { circ: &t.circ, usable: t.circ.rows() + 10 }.check_all("honest table");
}

fn entries_of(step: u64, full: bool) -> Vec<Entry> {
    let mut v = vec![Fixed(1), Stream(1, step), Stream(2, step + 1), Stream(2, 2 * step)];
    if full {
        v.extend([Fixed(0), Stream(1, 0), Stream(1, 1), Stream(3, 2 * step + 1), Stream(3, 3 * step)]);
    }
    v
}
pub fn shapes(step: u64, thorough: bool) -> Vec<Vec<Entry>> {
    let full = entries_of(step, true);
    let some = entries_of(step, false);
    let mut v = vec![vec![]];
    for a in &full {
        v.push(vec![*a]);
    }
    for a in if thorough { &full } else { &some } {
        for b in if thorough { &full } else { &some } {
            v.push(vec![*a, *b]);
        }
    }
    let three = if thorough { some } else { vec![Fixed(1), Stream(2, 2 * step)] };
    for a in &three {
        for b in &three {
            for c in &three {
                v.push(vec![*a, *b, *c]);
            }
        }
    }
    v
}
fn label(s: &[Entry]) -> String {
    format!("{s:?}").replace(['[', ']'], "").replace(", ", ",")
}
/// tables with long messages or many entries
pub fn large(step: u64, thorough: bool) -> Vec<Vec<Entry>> {
    let mut v = vec![
        vec![Stream(5, 5 * step)],
        vec![Fixed(1), Stream(6, 5 * step + 1), Fixed(1)],
        vec![Stream(9, 9 * step - 1), Stream(2, 2 * step)],
        vec![Stream(2, step + 1), Fixed(1), Stream(17, 17 * step), Stream(1, 1)],
        (0..40).map(|k| [Fixed(1), Stream(2, 2 * step), Fixed(0), Stream(3, 2 * step + 1), Stream(1, step)][k % 5]).collect(),
        vec![Fixed(1); 33],
    ];
    if thorough {
        v.push(vec![Stream(33, 32 * step + 1)]);
        v.push(vec![Stream(70, 70 * step), Fixed(1)]);
        v.push((0..130).map(|k| [Fixed(1), Stream(2, step + 1), Stream(4, 4 * step - 1)][k % 3]).collect());
        v.push(vec![Fixed(1); 257]);
    }
    v
}
pub fn c15(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    fn add<PC: Chip3 + 'static, const STEP: usize>(v: &mut Vec<Scen>, s: &[Entry], spare: usize, mode: Mode, checked: bool)
    where
        PC::Config: Sync,
    {
        let s = s.to_vec();
        v.push(Scen::new(format!("{} step {STEP} [{}] +{spare} {mode:?}{}", PC::NAME, label(&s), if checked { " checked" } else { "" }), move || assignable::<PC, STEP>(&s, spare, mode, checked)));
    }
    for mode in modes(true) {
        for (n, s) in shapes(62, thorough).iter().enumerate() {
            add::<SeptidonChip, 62>(&mut v, s, 1, mode, false);
            if s.len() <= 2 || thorough {
                add::<Pow5Chip<Fr, 3, 2>, 62>(&mut v, s, 1, mode, n % 3 == 1);
            }
            if n % 4 == 0 || thorough {
                add::<SeptidonChip, 62>(&mut v, s, 2 + n % 3, mode, true);
            }
        }
        for (n, s) in large(62, thorough).iter().enumerate() {
            add::<SeptidonChip, 62>(&mut v, s, 1 + n % 3, mode, n % 2 == 0);
        }
        for s in shapes(32, false).iter().filter(|s| s.len() == 2) {
            add::<SeptidonChip, 32>(&mut v, s, 1, mode, false);
        }
        for s in shapes(1, false).iter().filter(|s| s.len() == 1) {
            add::<SeptidonChip, 1>(&mut v, s, 1, mode, false);
        }
    }
    v
}

fn shape<PC: Chip3, const STEP: usize>(entries: &[Entry], calcs: usize, mode: Mode)
where
    PC::Config: Sync,
{
    let b = fill(entries, STEP, false);
    let with = table::<PC, STEP>(&b.data, calcs, mode, true);
    let keygen = table::<PC, STEP>(&b.data, calcs, mode, false);
    let empty = table::<PC, STEP>(&PoseidonHashTable::default(), calcs, mode, false);
    for (name, o) in [("without witnesses", &keygen), ("empty table", &empty)] {
        let (x, y) = (&with.circ.rec, &o.circ.rec);
        check_plain(&format!("{name}: fixed cells"), x.fixed.keys().eq(y.fixed.keys()), || "other fixed cells are assigned".into());
        for (k, v) in &x.fixed {
            if let Some(w) = y.fixed.get(k) {
                check(&format!("{name}: fixed cell {k:?}"), *v, *w);
            }
        }
        check_plain(&format!("{name}: selectors"), x.selectors == y.selectors, || "selectors differ".into());
        let norm = |r: &halo2_proofs::circuit::Record<Fr>| -> BTreeSet<_> {
            r.copies.iter().map(|(a, b)| (key_of(a.0, a.1), key_of(b.0, b.1))).map(|(a, b)| (a.min(b), a.max(b))).collect()
        };
        check_plain(&format!("{name}: copy constraints"), norm(x) == norm(y), || "copy constraints differ".into());
        check_plain(&format!("{name}: tables"), x.tables.len() == y.tables.len() && x.tables.iter().zip(&y.tables).all(|(a, b)| a.0 == b.0 && a.1.len() == b.1.len()), || "tables differ".into());
        for (c, v) in &x.tables {
            for (k, a) in v.iter().enumerate() {
                if let Some(w) = y.tables.get(c).and_then(|t| t.get(k)) {
                    check(&format!("{name}: table {c} row {k}"), *a, *w);
                }
            }
        }
        if mode == Mode::Serial {
            let order = |r: &halo2_proofs::circuit::Record<Fr>| -> Vec<_> { r.copies.iter().map(|(a, b)| (key_of(a.0, a.1), key_of(b.0, b.1))).collect() };
            check_plain(&format!("{name}: order of copy constraints"), order(x) == order(y), || "order differs".into());
            let regs = |r: &halo2_proofs::circuit::Record<Fr>| -> Vec<_> { r.regions.iter().map(|g| (g.start, g.rows, g.columns.clone())).collect() };
            check_plain(&format!("{name}: regions"), regs(x) == regs(y), || "regions differ".into());
        }
        check_plain(&format!("{name}: advice cells"), x.advice_assigned == y.advice_assigned, || "other advice cells are assigned".into());
        // the constraint system itself
        let (c, d) = (&with.circ.cs, &o.circ.cs);
        check_plain(&format!("{name}: constraint system"), format!("{:?}{:?}", c.gates, c.lookups) == format!("{:?}{:?}", d.gates, d.lookups), || "gates differ".into());
    }
}
pub fn c16(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    fn add<PC: Chip3 + 'static, const STEP: usize>(v: &mut Vec<Scen>, s: &[Entry], calcs: usize, mode: Mode)
    where
        PC::Config: Sync,
    {
        let s = s.to_vec();
        v.push(Scen::new(format!("{} step {STEP} [{}] capacity {calcs} {mode:?}", PC::NAME, label(&s)), move || shape::<PC, STEP>(&s, calcs, mode)));
    }
    for mode in modes(true) {
        for s in shapes(62, thorough) {
            add::<SeptidonChip, 62>(&mut v, &s, 10, mode);
            if s.len() <= 2 {
                add::<Pow5Chip<Fr, 3, 2>, 62>(&mut v, &s, 8, mode);
            }
        }
        for s in large(62, thorough) {
            let n: usize = s.iter().map(|e| if let Stream(r, _) = e { *r } else { 1 }).sum();
            for spare in [1, 7, 50] {
                add::<SeptidonChip, 62>(&mut v, &s, n + spare, mode);
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------- C19
fn budget<PC: Chip3>(n: usize, batch: bool) {
    let s = crate::perm::states::<Fr>(n);
    let b = permutations::<Fr, SF, PC>(&s, batch, 0, 0, false);
    // rows of the permutation regions
    let used: usize = b.circ.rec.regions.iter().filter(|r| r.name != "inputs" && r.name != "results").map(|r| r.rows).sum();
    let total = b.circ.rows() as usize;
    let mut data = PoseidonHashTable::<Fr>::default();
    for x in &s {
        data.fixed_inputs(&[([x[0], x[1]], x[2], None)]);
    }
    let block = <Fr as Hashable>::hash_block_size();
    check_plain(&format!("{n} permutations fit in the declared minimum"), data.minimum_row_require() >= used.max(total), || format!("{} rows declared, {} used", data.minimum_row_require(), used.max(total)));
    check_plain(&format!("{n} permutations: declared block size"), used.max(total) <= n * block, || format!("block of {block} rows declared, {} used by {n}", used.max(total)));
    check_plain(&format!("{n} permutations: table size"), data.table_size() == n, || "table size".into());
}
/// the same for any number of permutations: heights taken from the circuit, the declared size from the code
fn budget_any<PC: Chip3>() {
    let heights = |n: usize| -> Vec<usize> {
        let b = permutations::<Fr, SF, PC>(&crate::perm::states::<Fr>(n), true, 0, 0, false);
        b.circ.rec.regions.iter().filter(|r| r.name != "inputs" && r.name != "results").map(|r| r.rows).collect()
    };
    let h: usize = heights(1).iter().sum();
    for n in 1..=6 {
        let hs = heights(n);
        check_plain(&format!("heights of {n} blocks"), hs.iter().sum::<usize>() <= n * h, || format!("{hs:?}"));
    }
    let declared = |n: usize| {
        let mut data = PoseidonHashTable::<Fr>::default();
        data.inputs = vec![[Fr::ZERO; 2]; n];
        data.minimum_row_require()
    };
    let d = declared(1);
    for n in [0, 1, 2, 3, 17, 255, 256, 257, 4095, 65535, 65536, 1 << 20] {
        check_plain(&format!("declared rows of {n} are at least {n} times those of one"), declared(n) >= n * d, || format!("{}", declared(n)));
    }
    let body = format!("(declare-const n Int)\n(assert (and (<= 0 n) (< n {})))\n(assert (or (< (* {d} n) (* {h} n)) (>= (* {d} n) {})))", 1u64 << 57, 1u128 << 64);
    check_smt("rows used by any number of permutations are declared", body, || (1..64).find(|n| declared(*n) < heights(*n).iter().sum()).map(|n| format!("{n} permutations: {} rows declared, {} used", declared(n), heights(n).iter().sum::<usize>())));
}
/// without the `short` features of both crates agreeing: one comparison, everything else is linear in it
#[cfg(all(not(feature = "short"), not(feature = "nodef")))]
fn budget_one<PC: Chip3>() {
    let used = |n: usize| -> usize {
        let b = permutations::<Fr, SF, PC>(&crate::perm::states::<Fr>(n), true, 0, 0, false);
        b.circ.rec.regions.iter().filter(|r| r.name != "inputs" && r.name != "results").map(|r| r.rows).sum()
    };
    let declared = |n: usize| {
        let mut data = PoseidonHashTable::<Fr>::default();
        data.inputs = vec![[Fr::ZERO; 2]; n];
        data.minimum_row_require()
    };
    let (u, d) = (used(1), declared(1));
    for n in 1..=6 {
        let (a, b) = (used(n), declared(n));
        check_plain(&format!("rows used by {n}"), a <= n * u, || format!("{a}"));
        check_plain(&format!("rows declared for {n}"), b >= n * d, || format!("{b}"));
    }
    check_plain("rows declared per permutation cover those used", d >= u, || format!("{d} rows declared, {u} used"));
}
/// declared rows of a table of any length, whose entries are never read (replay of the bit-precise harness)
#[cfg(feature = "real")]
fn rows() {
    let n = MODEL.lock().unwrap().as_ref().and_then(|m| m.get("v0").copied()).map_or(3, |l| l[0] as usize);
    let mut data = PoseidonHashTable::<Fr>::default();
    let mut few = std::mem::ManuallyDrop::new(Vec::<[Fr; 2]>::with_capacity(4));
    data.inputs = unsafe { Vec::from_raw_parts(few.as_mut_ptr(), n, n) };
    let d = data.minimum_row_require();
    std::mem::forget(data);
    let block = <Fr as Hashable>::hash_block_size();
    check_plain("declared rows are at least block size times length", d as u128 >= n as u128 * block as u128, || format!("{n} entries: {d} rows declared, block size {block}"));
}
pub fn c19(thorough: bool) -> Vec<Scen> {
    let mut v = vec![];
    #[cfg(feature = "real")]
    v.push(Scen::new("proofs::rows", rows));
    #[cfg(all(not(feature = "short"), not(feature = "nodef")))]
    {
        let _ = (thorough, budget::<Pow5Chip<Fr, 3, 2>>, budget_any::<Pow5Chip<Fr, 3, 2>>);
        v.push(Scen::new("crate without short on poseidon-base with its default features", || budget_one::<Pow5Chip<Fr, 3, 2>>()));
        return v;
    }
    #[cfg(feature = "short")]
    type Chip = SeptidonChip;
    #[cfg(all(not(feature = "short"), feature = "nodef"))]
    type Chip = Pow5Chip<Fr, 3, 2>;
    #[cfg(any(feature = "short", feature = "nodef"))]
    {
        v.push(Scen::new("chip of this build, any number of permutations", || budget_any::<Chip>()));
        for n in 1..=if thorough { 64 } else { 12 } {
            for batch in [false, true] {
                v.push(Scen::new(format!("chip of this build, {n} permutations{}", if batch { " in batch" } else { "" }), move || budget::<Chip>(n, batch)));
            }
        }
        v
    }
}
