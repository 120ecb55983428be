//! Reads a recorded constraint system as equations between cells and eliminates cells: what remains are branches
//! in which every cell is a function of free symbols. Used to decide what any satisfying assignment looks like, and
//! (second half) whether a given assignment satisfies everything.
use crate::env::*;
use halo2_proofs::circuit::{AssignedCell, RecordingLayouter, Record};
use halo2_proofs::plonk::{Any, Column, ConstraintSystem, Expression};
use std::cell::RefCell;
use std::rc::Rc;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// further branches would say the same: natively a failure is confirmed, symbolically several claims failed outright
pub fn settled() -> bool {
    #[cfg(feature = "real")]
    return !FAILS.lock().unwrap().is_empty();
    #[cfg(not(feature = "real"))]
    return symfield::ctx::with(|c| c.refuted_plain.len() >= 12);
}

/// (0 advice, 1 fixed, 2 instance; column; row)
pub type Key = (u8, usize, i64);

pub fn key_of(c: Column<Any>, row: usize) -> Key {
    let k = match c.column_type() {
        Any::Advice(_) => 0,
        Any::Fixed => 1,
        Any::Instance => 2,
    };
    (k, c.index(), row as i64)
}

/// field element that knows whether it is circuit data (fixed columns, constants) or depends on the witness
#[derive(Clone, Copy, Debug)]
pub struct K<F> {
    pub v: F,
    pub c: bool,
}
impl<F: VField> K<F> {
    pub fn con(v: F) -> Self {
        K { v, c: true }
    }
    pub fn var(v: F) -> Self {
        K { v, c: false }
    }
    pub fn is0(&self) -> bool {
        self.c && self.v == F::ZERO
    }
    fn is1(&self) -> bool {
        self.c && self.v == F::ONE
    }
    pub fn add(self, o: Self) -> Self {
        if self.is0() {
            return o;
        }
        if o.is0() {
            return self;
        }
        K { v: self.v + o.v, c: self.c && o.c }
    }
    pub fn mul(self, o: Self) -> Self {
        if self.is0() || o.is0() {
            return K::con(F::ZERO);
        }
        if self.is1() {
            return o;
        }
        if o.is1() {
            return self;
        }
        K { v: self.v * o.v, c: self.c && o.c }
    }
    pub fn neg(self) -> Self {
        K { v: -self.v, c: self.c }
    }
}

pub struct Circ<F: VField> {
    pub cs: ConstraintSystem<F>,
    pub rec: Record<F>,
    class: HashMap<Key, usize>,
    names: Vec<Key>,
    fixed: Vec<Option<F>>,
}
impl<F: VField> Circ<F> {
    pub fn new(cs: ConstraintSystem<F>, lay: RecordingLayouter<F>) -> Self {
        let rec = lay.rec;
        let mut parent: HashMap<Key, Key> = HashMap::new();
        fn find(p: &HashMap<Key, Key>, mut k: Key) -> Key {
            while let Some(n) = p.get(&k) {
                k = *n;
            }
            k
        }
        let mut keys: BTreeSet<Key> = BTreeSet::new();
        for (a, b) in &rec.copies {
            let (a, b) = (key_of(a.0, a.1), key_of(b.0, b.1));
            keys.insert(a);
            keys.insert(b);
            let (x, y) = (find(&parent, a), find(&parent, b));
            if x != y {
                parent.insert(x.max(y), x.min(y));
            }
        }
        let mut c = Circ { cs, rec, class: HashMap::new(), names: vec![], fixed: vec![] };
        let mut root: HashMap<Key, usize> = HashMap::new();
        for k in keys {
            let r = find(&parent, k);
            let id = *root.entry(r).or_insert_with(|| {
                c.names.push(k);
                c.fixed.push(None);
                c.names.len() - 1
            });
            c.class.insert(k, id);
            if k.0 == 1 {
                c.fixed[id] = Some(c.fixed_at(k.1, k.2));
            }
        }
        c
    }
    pub fn fixed_at(&self, col: usize, row: i64) -> F {
        if row < 0 {
            return F::ZERO;
        }
        if let Some(t) = self.rec.tables.get(&col) {
            // unused rows of a table column repeat its first entry
            return t.get(row as usize).or(t.first()).copied().unwrap_or(F::ZERO);
        }
        self.rec.fixed.get(&(col, row as usize)).copied().unwrap_or(F::ZERO)
    }
    fn selector_at(&self, s: usize, row: i64) -> F {
        if row >= 0 && self.rec.selectors.contains(&(s, row as usize)) {
            F::ONE
        } else {
            F::ZERO
        }
    }
    pub fn cell<V>(&self, c: &AssignedCell<V, F>) -> Key {
        let c = c.cell();
        key_of(c.column, self.rec.regions[c.region_index.0].start + c.row_offset)
    }
    pub fn rows(&self) -> i64 {
        self.rec.rows() as i64
    }
}

// ---------------------------------------------------------------------------------- polynomials over unknown cells
type Mono = Vec<usize>;
#[derive(Clone, Debug)]
pub struct Poly<F>(BTreeMap<Mono, K<F>>);
impl<F: VField> Poly<F> {
    fn known(k: K<F>) -> Self {
        let mut m = BTreeMap::new();
        if !k.is0() {
            m.insert(vec![], k);
        }
        Poly(m)
    }
    fn var(id: usize) -> Self {
        Poly([(vec![id], K::con(F::ONE))].into())
    }
    fn is0(&self) -> bool {
        self.0.is_empty()
    }
    fn add(mut self, o: Poly<F>) -> Self {
        for (m, k) in o.0 {
            let n = match self.0.get(&m) {
                Some(x) => x.add(k),
                None => k,
            };
            if n.is0() {
                self.0.remove(&m);
            } else {
                self.0.insert(m, n);
            }
        }
        self
    }
    fn scale(&self, k: K<F>) -> Self {
        if k.is0() {
            return Poly(BTreeMap::new());
        }
        Poly(self.0.iter().map(|(m, x)| (m.clone(), x.mul(k))).collect())
    }
    fn neg(&self) -> Self {
        Poly(self.0.iter().map(|(m, x)| (m.clone(), x.neg())).collect())
    }
    fn mul(&self, o: &Poly<F>) -> Option<Self> {
        let mut r = Poly(BTreeMap::new());
        for (a, x) in &self.0 {
            for (b, y) in &o.0 {
                if a.len() + b.len() > 3 {
                    return None;
                }
                let mut m = a.clone();
                m.extend(b);
                m.sort();
                r = r.add(Poly([(m, x.mul(*y))].into()));
            }
        }
        if r.0.len() > 64 {
            return None;
        }
        Some(r)
    }
    fn constant(&self) -> Option<K<F>> {
        match self.0.len() {
            0 => Some(K::con(F::ZERO)),
            1 => self.0.get(&vec![]).copied(),
            _ => None,
        }
    }
    fn degree(&self) -> usize {
        self.0.keys().map(|m| m.len()).max().unwrap_or(0)
    }
    fn vars(&self) -> BTreeSet<usize> {
        self.0.keys().flatten().copied().collect()
    }
    /// linear with constant coefficients on its unknowns
    fn linear(&self) -> bool {
        self.degree() == 1 && self.0.iter().all(|(m, k)| m.is_empty() || k.c)
    }
}

#[derive(Clone)]
struct Eq<F: VField> {
    /// product of these factors is zero
    factors: Vec<(Rc<Expression<F>>, i64)>,
    /// result of the last look and the unknown cells it depended on
    seen: RefCell<Option<(Rc<Vec<(usize, Option<Poly<F>>)>>, Vec<usize>)>>,
}
impl<F: VField> Eq<F> {
    fn new(factors: Vec<(Rc<Expression<F>>, i64)>) -> Self {
        Eq { factors, seen: RefCell::new(None) }
    }
}
enum Look<F> {
    Holds,
    Fails,
    /// product of these is zero; None: too complex for now
    Factors(Rc<Vec<(usize, Option<Poly<F>>)>>),
}

fn split<F: VField>(e: &Expression<F>, row: i64, out: &mut Vec<(Rc<Expression<F>>, i64)>) {
    match e {
        Expression::Product(a, b) => {
            split(a, row, out);
            split(b, row, out);
        }
        Expression::Negated(a) => split(a, row, out),
        Expression::Scaled(a, k) => {
            split(a, row, out);
            out.push((Rc::new(Expression::Constant(*k)), row));
        }
        e => out.push((Rc::new(e.clone()), row)),
    }
}

pub struct Branch<'a, F: VField> {
    pub circ: &'a Circ<F>,
    st: RefCell<State<F>>,
    pub tag: &'a str,
    pub path: String,
}
#[derive(Clone)]
struct State<F: VField> {
    class: HashMap<Key, usize>,
    names: Vec<Key>,
    val: Vec<Option<Poly<F>>>,
    pending: Vec<Rc<Eq<F>>>,
    prio: Vec<Key>,
    rows: Vec<i64>,
    /// all gates are there: go on until they determine every cell
    whole: bool,
    /// otherwise the equations used, and the rows whose lookups count
    near: Rc<(Vec<Rc<Eq<F>>>, Vec<i64>)>,
}
impl<F: VField> State<F> {
    fn id(&mut self, circ: &Circ<F>, k: Key) -> usize {
        if let Some(i) = self.class.get(&k) {
            return *i;
        }
        self.names.push(k);
        self.val.push(if k.0 == 1 { Some(Poly::known(K::con(circ.fixed_at(k.1, k.2)))) } else { None });
        self.class.insert(k, self.names.len() - 1);
        self.names.len() - 1
    }
    fn resolve(&mut self, id: usize) -> Poly<F> {
        let Some(p) = self.val[id].clone() else { return Poly::var(id) };
        if p.degree() == 0 {
            return p;
        }
        let mut r = Poly(BTreeMap::new());
        let mut changed = false;
        for (m, k) in &p.0 {
            let mut t = Poly::known(*k);
            for v in m {
                let q = self.resolve(*v);
                changed |= self.val[*v].is_some();
                t = t.mul(&q).expect("linear substitution");
            }
            r = r.add(t);
        }
        if changed {
            self.val[id] = Some(r.clone());
        }
        r
    }
    fn eval(&mut self, circ: &Circ<F>, e: &Expression<F>, row: i64) -> Option<Poly<F>> {
        Some(match e {
            Expression::Constant(c) => Poly::known(K::con(*c)),
            Expression::Selector(s) => Poly::known(K::con(circ.selector_at(s.index(), row))),
            Expression::Fixed(q) => Poly::known(K::con(circ.fixed_at(q.column_index(), row + q.rotation().0 as i64))),
            Expression::Advice(q) => {
                let id = self.id(circ, (0, q.column_index(), row + q.rotation().0 as i64));
                self.resolve(id)
            }
            Expression::Instance(q) => {
                let id = self.id(circ, (2, q.column_index(), row + q.rotation().0 as i64));
                self.resolve(id)
            }
            Expression::Challenge(_) => return None,
            Expression::Negated(a) => self.eval(circ, a, row)?.neg(),
            Expression::Sum(a, b) => {
                let (x, y) = (self.eval(circ, a, row), self.eval(circ, b, row));
                x?.add(y?)
            }
            Expression::Product(a, b) => {
                let x = self.eval(circ, a, row);
                if matches!(&x, Some(p) if p.is0()) {
                    return x;
                }
                let y = self.eval(circ, b, row);
                if matches!(&y, Some(p) if p.is0()) {
                    return y;
                }
                x?.mul(&y?)?
            }
            Expression::Scaled(a, k) => {
                if *k == F::ZERO {
                    return Some(Poly::known(K::con(F::ZERO)));
                }
                self.eval(circ, a, row)?.scale(K::con(*k))
            }
        })
    }
    fn look(&mut self, circ: &Circ<F>, eq: &Eq<F>) -> Look<F> {
        if let Some((f, deps)) = &*eq.seen.borrow() {
            if deps.iter().all(|d| self.val[*d].is_none()) {
                return Look::Factors(f.clone());
            }
        }
        let mut left = vec![];
        for (i, (e, row)) in eq.factors.iter().enumerate() {
            let p = self.eval(circ, e, *row);
            match p.as_ref().and_then(|p| p.constant()) {
                Some(k) if k.is0() => return Look::Holds,
                Some(k) if k.c => {}
                _ => left.push((i, p)),
            }
        }
        if left.is_empty() {
            return Look::Fails;
        }
        let mut cells = vec![];
        for (i, _) in &left {
            cells_of(&eq.factors[*i].0, eq.factors[*i].1, &mut cells);
        }
        let mut deps = BTreeSet::new();
        for k in cells {
            let id = self.id(circ, k);
            deps.extend(self.resolve(id).vars());
        }
        let left = Rc::new(left);
        *eq.seen.borrow_mut() = Some((left.clone(), deps.into_iter().collect()));
        Look::Factors(left)
    }
    fn assign(&mut self, x: usize, p: &Poly<F>) {
        // p = a x + rest = 0
        let a = p.0[&vec![x]];
        let mut rest = p.clone();
        rest.0.remove(&vec![x]);
        let v = if a.v == F::ONE {
            rest.neg()
        } else {
            let i = -(Option::<F>::from(a.v.invert()).expect("nonzero coefficient"));
            rest.scale(K::con(i))
        };
        self.val[x] = Some(v);
    }
}

/// part of a circuit looked at
pub struct Focus {
    pub cells: Vec<Key>,
    pub switch: usize,
    pub rows: Vec<i64>,
}
fn cells_of<F: VField>(e: &Expression<F>, row: i64, out: &mut Vec<Key>) {
    match e {
        Expression::Advice(q) => out.push((0, q.column_index(), row + q.rotation().0 as i64)),
        Expression::Instance(q) => out.push((2, q.column_index(), row + q.rotation().0 as i64)),
        Expression::Negated(a) | Expression::Scaled(a, _) => cells_of(a, row, out),
        Expression::Sum(a, b) | Expression::Product(a, b) => {
            cells_of(a, row, out);
            cells_of(b, row, out);
        }
        _ => {}
    }
}

impl<F: VField> Circ<F> {
    fn near(&self, st: &mut State<F>, focus: &Focus) -> Vec<Rc<Eq<F>>> {
        let mut todo = vec![];
        for eq in std::mem::take(&mut st.pending) {
            let outside = eq.factors.iter().any(|(e, r)| matches!(&**e, Expression::Fixed(q) if q.column_index() == focus.switch && q.rotation().0 == 0) && !focus.rows.contains(r));
            if outside || matches!(st.look(self, &eq), Look::Holds) {
                continue;
            }
            let mut cells = vec![];
            for (e, r) in &eq.factors {
                cells_of(e, *r, &mut cells);
            }
            let ids: Vec<usize> = cells.into_iter().map(|k| st.id(self, k)).collect();
            todo.push((todo.len(), eq, ids));
        }
        let mut seen: BTreeSet<usize> = focus.cells.iter().map(|k| st.id(self, *k)).collect();
        let mut keep = vec![];
        loop {
            let n = keep.len();
            let mut rest = vec![];
            for (k, eq, ids) in todo {
                if ids.iter().any(|i| seen.contains(i) && st.val[*i].is_none()) {
                    seen.extend(ids);
                    keep.push((k, eq));
                } else {
                    rest.push((k, eq, ids));
                }
            }
            todo = rest;
            if keep.len() == n {
                keep.sort_by_key(|x| x.0);
                return keep.into_iter().map(|x| x.1).collect();
            }
        }
    }
    /// Calls `leaf` on every branch of the solutions of all gates at `rows` together with the copy constraints and
    /// fixed columns; `known` cells are given, cells of `prio` are made free symbols first when nothing determines them.
    /// Constraints that stay unresolved on a branch are left out there (which only allows more assignments).
    /// Returns the number of branches.
    pub fn solve(&self, tag: &str, rows: impl Iterator<Item = i64>, known: &[(Key, F)], prio: &[Key], zero: &[Expression<F>], leaf: &mut dyn FnMut(&Branch<F>)) -> usize {
        self.solve_near(tag, rows, known, prio, zero, None, leaf)
    }
    /// `focus`: only gate instances connected to these cells are used, gates switched by that fixed column only at those rows
    #[allow(clippy::too_many_arguments)]
    pub fn solve_near(&self, tag: &str, rows: impl Iterator<Item = i64>, known: &[(Key, F)], prio: &[Key], zero: &[Expression<F>], focus: Option<&Focus>, leaf: &mut dyn FnMut(&Branch<F>)) -> usize {
        let mut st = State {
            class: self.class.clone(),
            names: self.names.clone(),
            val: self.fixed.iter().map(|f| f.map(|v| Poly::known(K::con(v)))).collect(),
            pending: vec![],
            prio: prio.to_vec(),
            rows: rows.collect(),
            whole: focus.is_none(),
            near: Rc::new((vec![], vec![])),
        };
        for (k, v) in known {
            let id = st.id(self, *k);
            st.val[id] = Some(Poly::known(K::var(*v)));
        }
        let mut split_gates = vec![];
        for g in &self.cs.gates {
            for p in &g.polys {
                let mut factors = vec![];
                split(p, 0, &mut factors);
                split_gates.push(factors);
            }
        }
        for r in st.rows.clone() {
            for f in &split_gates {
                st.pending.push(Rc::new(Eq::new(f.iter().map(|(e, _)| (e.clone(), r)).collect())));
            }
        }
        if let Some(f) = focus {
            st.pending = self.near(&mut st, f);
            st.near = Rc::new((st.pending.clone(), f.rows.clone()));
        }
        for z in zero {
            let mut factors = vec![];
            split(z, 0, &mut factors);
            st.pending.push(Rc::new(Eq::new(factors)));
        }
        self.descend(tag, String::new(), st, leaf)
    }
    fn descend(&self, tag: &str, path: String, mut st: State<F>, leaf: &mut dyn FnMut(&Branch<F>)) -> usize {
        if settled() {
            return 0;
        }
        loop {
            let mut progress = false;
            // unique unknown first, then any linear relation
            for any in [false, true] {
                let mut keep = vec![];
                let pend = std::mem::take(&mut st.pending);
                for eq in pend {
                    match st.look(self, &eq) {
                        Look::Holds => {}
                        Look::Fails => return 0,
                        Look::Factors(f) => {
                            if let [(_, Some(p))] = &f[..] {
                                if p.linear() && (any && !progress || p.vars().len() == 1) {
                                    let vars = p.vars();
                                    // the cell least wanted as a free one
                                    let rank = |v: &usize| st.prio.iter().position(|k| st.class.get(k) == Some(v)).unwrap_or(usize::MAX);
                                    let x = *vars.iter().max_by_key(|v| (rank(v), **v)).unwrap();
                                    st.assign(x, p);
                                    progress = true;
                                    continue;
                                }
                            }
                            let kept: Vec<_> = f.iter().map(|(i, _)| eq.factors[*i].clone()).collect();
                            let mut idx = 0..;
                            let fs: Vec<_> = f.iter().map(|(_, p)| (idx.next().unwrap(), p.clone())).collect();
                            let deps = eq.seen.borrow().as_ref().unwrap().1.clone();
                            keep.push(if f.len() == eq.factors.len() { eq } else { Rc::new(Eq { factors: kept, seen: RefCell::new(Some((Rc::new(fs), deps))) }) });
                        }
                    }
                }
                st.pending = keep;
                if progress {
                    break;
                }
            }
            if progress {
                continue;
            }
            // case split: a product of linear factors is zero; those about one cell first
            let mut best: Option<(usize, usize)> = None;
            for n in 0..st.pending.len() {
                let eq = st.pending[n].clone();
                let Look::Factors(f) = st.look(self, &eq) else { continue };
                if f.len() > 1 && f.iter().all(|(_, p)| matches!(p, Some(p) if p.linear())) {
                    let vars: BTreeSet<usize> = f.iter().flat_map(|(_, p)| p.as_ref().unwrap().vars()).collect();
                    if best.is_none() || vars.len() < best.unwrap().0 {
                        best = Some((vars.len(), n));
                    }
                }
            }
            if let Some((_, n)) = best {
                let eq = st.pending[n].clone();
                let Look::Factors(f) = st.look(self, &eq) else { unreachable!() };
                let mut total = 0;
                for (j, (i, _)) in f.iter().enumerate() {
                    let mut s = st.clone();
                    // what was seen is particular to a branch
                    s.pending = s.pending.iter().map(|e| Rc::new((**e).clone())).collect();
                    s.pending[n] = Rc::new(Eq::new(vec![eq.factors[*i].clone()]));
                    total += self.descend(tag, format!("{path}{j}"), s, leaf);
                }
                return total;
            }
            // lookups whose input is circuit data by now
            for l in &self.cs.lookups {
                for r in st.rows.clone() {
                    let vals: Vec<Option<K<F>>> = l.input.iter().map(|e| st.eval(self, e, r).and_then(|p| p.constant())).collect();
                    if vals.iter().all(|v| matches!(v, Some(k) if k.c)) {
                        let vals: Vec<F> = vals.into_iter().map(|v| v.unwrap().v).collect();
                        if !self.in_table(&l.table, &vals) {
                            return 0;
                        }
                    }
                }
            }
            let free = st.prio.clone().into_iter().find(|k| {
                let id = st.id(self, *k);
                st.val[id].is_none()
            });
            let Some(k) = free.or_else(|| if st.whole { st.stuck(self) } else { None }) else { break };
            st.symbol(self, tag, &path, k);
        }
        let b = Branch { circ: self, st: RefCell::new(st), tag, path };
        leaf(&b);
        1
    }
    /// natively, a free cell that goes through a single-column lookup holds something the table has
    fn looked_up(&self, k: &Key, v: F) -> F {
        for l in &self.cs.lookups {
            let mut cells = vec![];
            l.input.iter().for_each(|e| cells_of(e, 0, &mut cells));
            if l.input.len() == 1 && cells.iter().any(|c| c.0 == k.0 && c.1 == k.1) && !self.in_table(&l.table, &[v]) {
                return F::ZERO;
            }
        }
        v
    }
    pub fn in_table(&self, table: &[Expression<F>], vals: &[F]) -> bool {
        let cols: Vec<usize> = table
            .iter()
            .map(|e| match e {
                Expression::Fixed(q) => q.column_index(),
                _ => panic!("table expression"),
            })
            .collect();
        let n = cols.iter().map(|c| self.rec.tables.get(c).map(|t| t.len()).unwrap_or(0)).max().unwrap_or(0);
        (0..n as i64).any(|r| cols.iter().zip(vals).all(|(c, v)| self.fixed_at(*c, r) == *v))
    }
}
impl<F: VField> State<F> {
    /// unknown cell that some single remaining factor needs at a power: made free, so that the factor determines
    /// another cell; cells that no factor determines from others come first, then the factor with the fewest unknown
    /// cells, then the topmost cell
    fn stuck(&mut self, circ: &Circ<F>) -> Option<Key> {
        let mut found: Vec<(usize, usize)> = vec![];
        let mut linear = BTreeSet::new();
        for eq in self.pending.clone() {
            let Look::Factors(f) = self.look(circ, &eq) else { continue };
            let [(i, p)] = &f[..] else { continue };
            let (all, high): (BTreeSet<usize>, BTreeSet<usize>) = match p {
                Some(p) if p.degree() > 1 => (p.vars(), p.0.keys().filter(|m| m.len() > 1).flatten().copied().collect()),
                Some(_) => continue,
                None => {
                    let (e, r) = &eq.factors[*i];
                    self.powers(circ, e, *r)
                }
            };
            linear.extend(all.difference(&high).copied());
            found.extend(high.into_iter().map(|v| (v, all.len())));
        }
        let rank = |(v, n): &(usize, usize)| {
            let k = self.names[*v];
            (linear.contains(v), *n, k.2, k.1)
        };
        found.iter().min_by_key(|x| rank(x)).map(|x| self.names[x.0])
    }
    /// unknown cells of an expression, and those of them multiplied with unknown cells
    fn powers(&mut self, circ: &Circ<F>, e: &Expression<F>, row: i64) -> (BTreeSet<usize>, BTreeSet<usize>) {
        match e {
            Expression::Advice(_) | Expression::Instance(_) => {
                let mut c = vec![];
                cells_of(e, row, &mut c);
                let id = self.id(circ, c[0]);
                (self.resolve(id).vars(), BTreeSet::new())
            }
            Expression::Negated(a) | Expression::Scaled(a, _) => self.powers(circ, a, row),
            Expression::Sum(a, b) => {
                let (x, y) = (self.powers(circ, a, row), self.powers(circ, b, row));
                (&x.0 | &y.0, &x.1 | &y.1)
            }
            Expression::Product(a, b) => {
                let (x, y) = (self.powers(circ, a, row), self.powers(circ, b, row));
                let all = &x.0 | &y.0;
                let high = if x.0.is_empty() || y.0.is_empty() { &x.1 | &y.1 } else { all.clone() };
                (all, high)
            }
            _ => (BTreeSet::new(), BTreeSet::new()),
        }
    }
    fn symbol(&mut self, circ: &Circ<F>, tag: &str, path: &str, k: Key) {
        let id = self.id(circ, k);
        let n = self.names[id];
        let _ = path;
        let v = sym::<F>(&format!("{tag}{}_{}_{}", ["a", "f", "i"][n.0 as usize], n.1, n.2));
        let v = if cfg!(feature = "real") { circ.looked_up(&n, v) } else { v };
        self.val[id] = Some(Poly::known(K::var(v)));
    }
}
impl<F: VField> Branch<'_, F> {
    /// value of a cell in terms of the free symbols
    pub fn get(&self, k: Key) -> F {
        self.getk(k).v
    }
    pub fn getk(&self, k: Key) -> K<F> {
        let mut st = self.st.borrow_mut();
        let id = st.id(self.circ, k);
        loop {
            let p = st.resolve(id);
            if let Some(c) = p.constant() {
                return c;
            }
            let v = *p.vars().iter().next().unwrap();
            let n = st.names[v];
            st.symbol(self.circ, self.tag, &self.path, n);
        }
    }
    /// value of an expression at a row
    pub fn value_of(&self, e: &Expression<F>, row: i64) -> K<F> {
        let mut q = vec![];
        queries(e, row, &mut q);
        for k in q {
            self.get(k);
        }
        self.st.borrow_mut().eval(self.circ, e, row).and_then(|p| p.constant()).expect("all cells known")
    }
    /// with concrete values: completes the assignment and reports whether it satisfies everything
    pub fn complete(&self) -> bool {
        let mut st = self.st.borrow_mut();
        let c = self.circ;
        // unknown cells an equation hangs on; nothing changes for it before one of them is known
        let mut waits: HashMap<usize, BTreeSet<usize>> = HashMap::new();
        let mut done: BTreeSet<usize> = BTreeSet::new();
        loop {
            let mut progress = false;
            let mut open = BTreeSet::new();
            let pend = st.pending.clone();
            'eqs: for (n, eq) in pend.iter().enumerate() {
                if done.contains(&n) {
                    continue;
                }
                if let Some(deps) = waits.get(&n) {
                    if deps.iter().all(|d| st.val[*d].is_none()) {
                        open.extend(deps);
                        continue;
                    }
                }
                let mut left = vec![];
                for (e, row) in &eq.factors {
                    match st.eval(c, e, *row) {
                        Some(p) => match p.constant() {
                            Some(k) if k.v == F::ZERO => {
                                done.insert(n);
                                continue 'eqs;
                            }
                            Some(_) => {}
                            None => left.push(Some(p)),
                        },
                        None => left.push(None),
                    }
                }
                match &left[..] {
                    [] => return false,
                    [Some(p)] => {
                        let vars = p.vars();
                        waits.insert(n, vars.clone());
                        open.extend(vars.clone());
                        for x in &vars {
                            if vars.len() == 1 && p.degree() == 1 && p.0[&vec![*x]].v != F::ZERO {
                                st.assign(*x, p);
                                progress = true;
                                continue 'eqs;
                            }
                        }
                    }
                    l => {
                        let vars: BTreeSet<usize> = l.iter().flatten().flat_map(|p| p.vars()).collect();
                        if l.iter().all(|p| p.is_some()) {
                            waits.insert(n, vars.clone());
                        }
                        open.extend(vars)
                    }
                }
            }
            if progress {
                continue;
            }
            let next = open.iter().next().copied();
            match next {
                Some(x) => {
                    let n = st.stuck(c).unwrap_or(st.names[x]);
                    st.symbol(c, self.tag, &self.path, n);
                }
                None => break,
            }
        }
        // everything again, from the values alone
        let mut val = |e: &Expression<F>, r: i64| -> Option<F> {
            for _ in 0..1000 {
                if let Some(p) = st.eval(c, e, r) {
                    if let Some(k) = p.constant() {
                        return Some(k.v);
                    }
                    for x in p.vars() {
                        let n = st.names[x];
                        st.symbol(c, self.tag, &self.path, n);
                    }
                } else {
                    // unknown cells in a term of high degree
                    let mut q = vec![];
                    queries(e, r, &mut q);
                    for k in q {
                        let id = st.id(c, k);
                        let p = st.resolve(id);
                        for x in p.vars() {
                            let n = st.names[x];
                            st.symbol(c, self.tag, &self.path, n);
                        }
                    }
                }
            }
            None
        };
        let (whole, rows, near) = self.extent();
        if !whole {
            for eq in &near.0 {
                if !eq.factors.iter().any(|(e, r)| val(e, *r) == Some(F::ZERO)) {
                    return false;
                }
            }
        }
        for r in if whole { rows } else { near.1.clone() } {
            if whole {
                for g in &c.cs.gates {
                    for p in &g.polys {
                        if val(p, r) != Some(F::ZERO) {
                            return false;
                        }
                    }
                }
            }
            for l in &c.cs.lookups {
                let v: Option<Vec<F>> = l.input.iter().map(|e| val(e, r)).collect();
                match v {
                    Some(v) if c.in_table(&l.table, &v) => {}
                    _ => return false,
                }
            }
        }
        true
    }
    fn extent(&self) -> (bool, Vec<i64>, Rc<(Vec<Rc<Eq<F>>>, Vec<i64>)>) {
        // `st` is borrowed by the caller; these never change
        let st = unsafe { &*self.st.as_ptr() };
        (st.whole, st.rows.clone(), st.near.clone())
    }
}
pub fn queries<F: VField>(e: &Expression<F>, row: i64, out: &mut Vec<Key>) {
    match e {
        Expression::Advice(q) => out.push((0, q.column_index(), row + q.rotation().0 as i64)),
        Expression::Instance(q) => out.push((2, q.column_index(), row + q.rotation().0 as i64)),
        Expression::Negated(a) | Expression::Scaled(a, _) => queries(a, row, out),
        Expression::Sum(a, b) | Expression::Product(a, b) => {
            queries(a, row, out);
            queries(b, row, out);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------------------------- given assignments
pub struct Honest<'a, F: VField> {
    pub circ: &'a Circ<F>,
    /// rows the circuit may use; cells outside hold arbitrary values
    pub usable: i64,
}
impl<F: VField> Honest<'_, F> {
    fn advice(&self, k: Key, unassigned_zero: bool) -> K<F> {
        if k.2 >= 0 {
            if let Some(v) = self.circ.rec.advice.get(&(k.1, k.2 as usize)) {
                return K::var(*v);
            }
        }
        if unassigned_zero && k.2 >= 0 && k.2 < self.usable {
            return K::con(F::ZERO);
        }
        K::var(sym::<F>(&format!("unassigned_{}_{}", k.1, k.2)))
    }
    fn eval(&self, e: &Expression<F>, r: i64, uz: bool) -> K<F> {
        match e {
            Expression::Constant(c) => K::con(*c),
            Expression::Selector(s) => K::con(self.circ.selector_at(s.index(), r)),
            Expression::Fixed(q) => K::con(self.circ.fixed_at(q.column_index(), r + q.rotation().0 as i64)),
            Expression::Advice(q) => self.advice((0, q.column_index(), r + q.rotation().0 as i64), uz),
            Expression::Instance(_) | Expression::Challenge(_) => panic!("no instance columns here"),
            Expression::Negated(a) => self.eval(a, r, uz).neg(),
            Expression::Sum(a, b) => self.eval(a, r, uz).add(self.eval(b, r, uz)),
            Expression::Product(a, b) => {
                let x = self.eval(a, r, uz);
                if x.is0() {
                    return x;
                }
                x.mul(self.eval(b, r, uz))
            }
            Expression::Scaled(a, k) => {
                if *k == F::ZERO {
                    return K::con(F::ZERO);
                }
                self.eval(a, r, uz).mul(K::con(*k))
            }
        }
    }
    /// every gate, lookup and copy constraint as an obligation
    pub fn check_all(&self, label: &str) {
        let c = self.circ;
        for s in &c.rec.conflicts {
            check_plain(&format!("{label}: fixed cells"), false, || s.clone());
        }
        check_plain(&format!("{label}: fits"), c.rows() <= self.usable, || format!("{} rows used, {} available", c.rows(), self.usable));
        for r in 0..self.usable {
            for g in &c.cs.gates {
                for (n, p) in g.polys.iter().enumerate() {
                    let l = || format!("{label}: gate {} #{n} at row {r}", g.name);
                    let mut f = vec![];
                    split(p, r, &mut f);
                    let mut open: Vec<(&Expression<F>, i64)> = vec![];
                    let mut zero = false;
                    for x in &f {
                        let k = self.eval(&x.0, x.1, false);
                        if k.is0() {
                            zero = true;
                            break;
                        }
                        if !k.c {
                            open.push((&x.0, x.1));
                        }
                    }
                    if zero {
                        continue;
                    }
                    match &open[..] {
                        [] => check_plain(&l(), false, || "nonzero constant".into()),
                        [(Expression::Sum(a, b), _)] => {
                            let (x, y) = (self.eval(a, r, false), self.eval(b, r, false));
                            match &**b {
                                Expression::Negated(b) => check(&l(), x.v, self.eval(b, r, false).v),
                                _ => check(&l(), x.v, y.neg().v),
                            }
                        }
                        [(e, _)] => check(&l(), self.eval(e, r, false).v, F::ZERO),
                        _ => {
                            // one of the factors must vanish: the one that does under this model must do so always
                            let all: Vec<F> = open.iter().map(|(e, _)| self.eval(e, r, false).v).collect();
                            match all.iter().find(|v| value(*v) == symfield::arith::ZERO) {
                                Some(v) => check(&l(), *v, F::ZERO),
                                None => check(&l(), all.into_iter().reduce(|a, b| a * b).unwrap(), F::ZERO),
                            }
                        }
                    }
                }
            }
            for lk in &c.cs.lookups {
                let l = format!("{label}: lookup {} at row {r}", lk.name);
                let vals: Vec<F> = lk.input.iter().map(|e| self.eval(e, r, true).v).collect();
                let cols: Vec<usize> = lk
                    .table
                    .iter()
                    .map(|e| match e {
                        Expression::Fixed(q) => q.column_index(),
                        _ => panic!("table expression"),
                    })
                    .collect();
                let n = cols.iter().map(|x| c.rec.tables.get(x).map(|t| t.len()).unwrap_or(0)).max().unwrap_or(0) as i64;
                // the entry that matches under this model must match always
                let hit = (0..n).find(|t| cols.iter().zip(&vals).all(|(x, v)| value(v) == value(&c.fixed_at(*x, *t))));
                match hit {
                    Some(t) => {
                        for (x, v) in cols.iter().zip(&vals) {
                            check(&l, *v, c.fixed_at(*x, t));
                        }
                    }
                    None => check_plain(&l, false, || format!("{vals:?} not in the table")),
                }
            }
        }
        for (a, b) in &c.rec.copies {
            let g = |x: &(Column<Any>, usize)| {
                let k = key_of(x.0, x.1);
                match k.0 {
                    0 => c.rec.advice.get(&(k.1, x.1)).copied(),
                    1 => Some(c.fixed_at(k.1, k.2)),
                    _ => None,
                }
            };
            let l = format!("{label}: copy {:?} = {:?}", key_of(a.0, a.1), key_of(b.0, b.1));
            match (g(a), g(b)) {
                (Some(x), Some(y)) => check(&l, x, y),
                _ => check_plain(&l, false, || "cell not assigned".into()),
            }
        }
    }
}
