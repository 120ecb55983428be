use crate::circuit::{Layouter, Region, Value};
use crate::poly::Rotation;
use ff::Field;
use std::collections::{BTreeSet, HashMap};
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Debug)]
pub enum Error {
    Synthesis,
    InvalidInstances,
    ConstraintSystemFailure,
    BoundsFailure,
    Opening,
    NotEnoughRowsAvailable { current_k: u32 },
    InstanceTooLarge,
    NotEnoughColumnsForConstants,
    ColumnNotInPermutation(Column<Any>),
    TableError(String),
    Transcript(std::io::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

// ------------------------------------------------------------------------------------- columns
pub trait ColumnType: 'static + Sized + Copy + fmt::Debug + PartialEq + Eq + std::hash::Hash + PartialOrd + Ord + Into<Any> + Send + Sync {}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Advice;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fixed;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Instance;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Any {
    Advice(Advice),
    Fixed,
    Instance,
}
impl Any {
    pub fn advice() -> Any {
        Any::Advice(Advice)
    }
}
impl From<Advice> for Any {
    fn from(a: Advice) -> Any {
        Any::Advice(a)
    }
}
impl From<Fixed> for Any {
    fn from(_: Fixed) -> Any {
        Any::Fixed
    }
}
impl From<Instance> for Any {
    fn from(_: Instance) -> Any {
        Any::Instance
    }
}
impl ColumnType for Advice {}
impl ColumnType for Fixed {}
impl ColumnType for Instance {}
impl ColumnType for Any {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Column<C: ColumnType> {
    pub(crate) column_type: C,
    pub(crate) index: usize,
}
impl<C: ColumnType> Column<C> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn column_type(&self) -> &C {
        &self.column_type
    }
}
macro_rules! any_from {
    ($t:ident, $e:expr, $p:pat) => {
        impl From<Column<$t>> for Column<Any> {
            fn from(c: Column<$t>) -> Column<Any> {
                Column { column_type: $e, index: c.index }
            }
        }
        impl TryFrom<Column<Any>> for Column<$t> {
            type Error = &'static str;
            fn try_from(c: Column<Any>) -> Result<Self, &'static str> {
                match c.column_type {
                    $p => Ok(Column { column_type: $t, index: c.index }),
                    _ => Err("other column type"),
                }
            }
        }
    };
}
any_from!(Advice, Any::Advice(Advice), Any::Advice(_));
any_from!(Fixed, Any::Fixed, Any::Fixed);
any_from!(Instance, Any::Instance, Any::Instance);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Selector(pub usize, pub(crate) bool);
impl Selector {
    pub fn enable<F: Field>(&self, region: &mut Region<F>, offset: usize) -> Result<(), Error> {
        region.enable_selector(|| "", self, offset)
    }
    pub fn is_simple(&self) -> bool {
        self.1
    }
    pub fn index(&self) -> usize {
        self.0
    }
    pub fn expr<F: Field>(&self) -> Expression<F> {
        Expression::Selector(*self)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TableColumn {
    pub(crate) inner: Column<Fixed>,
}
impl TableColumn {
    pub fn inner(&self) -> Column<Fixed> {
        self.inner
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Challenge {
    index: usize,
}
impl Challenge {
    pub fn index(&self) -> usize {
        self.index
    }
}
pub trait Phase {}
#[derive(Debug)]
pub struct FirstPhase;
#[derive(Debug)]
pub struct SecondPhase;
#[derive(Debug)]
pub struct ThirdPhase;
impl Phase for FirstPhase {}
impl Phase for SecondPhase {}
impl Phase for ThirdPhase {}

// ------------------------------------------------------------------------------------- expressions
macro_rules! query {
    ($q:ident) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $q {
            pub column_index: usize,
            pub rotation: Rotation,
        }
        impl $q {
            pub fn column_index(&self) -> usize {
                self.column_index
            }
            pub fn rotation(&self) -> Rotation {
                self.rotation
            }
        }
    };
}
query!(FixedQuery);
query!(AdviceQuery);
query!(InstanceQuery);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Expression<F> {
    Constant(F),
    Selector(Selector),
    Fixed(FixedQuery),
    Advice(AdviceQuery),
    Instance(InstanceQuery),
    Challenge(Challenge),
    Negated(Box<Expression<F>>),
    Sum(Box<Expression<F>>, Box<Expression<F>>),
    Product(Box<Expression<F>>, Box<Expression<F>>),
    Scaled(Box<Expression<F>>, F),
}
impl<F: Field> Expression<F> {
    #[allow(clippy::too_many_arguments)]
    pub fn evaluate<T>(
        &self,
        constant: &impl Fn(F) -> T,
        selector_column: &impl Fn(Selector) -> T,
        fixed_column: &impl Fn(FixedQuery) -> T,
        advice_column: &impl Fn(AdviceQuery) -> T,
        instance_column: &impl Fn(InstanceQuery) -> T,
        challenge: &impl Fn(Challenge) -> T,
        negated: &impl Fn(T) -> T,
        sum: &impl Fn(T, T) -> T,
        product: &impl Fn(T, T) -> T,
        scaled: &impl Fn(T, F) -> T,
    ) -> T {
        let ev = |e: &Expression<F>| e.evaluate(constant, selector_column, fixed_column, advice_column, instance_column, challenge, negated, sum, product, scaled);
        match self {
            Expression::Constant(c) => constant(*c),
            Expression::Selector(s) => selector_column(*s),
            Expression::Fixed(q) => fixed_column(*q),
            Expression::Advice(q) => advice_column(*q),
            Expression::Instance(q) => instance_column(*q),
            Expression::Challenge(c) => challenge(*c),
            Expression::Negated(a) => negated(ev(a)),
            Expression::Sum(a, b) => sum(ev(a), ev(b)),
            Expression::Product(a, b) => product(ev(a), ev(b)),
            Expression::Scaled(a, f) => scaled(ev(a), *f),
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            Expression::Constant(_) | Expression::Challenge(_) => 0,
            Expression::Selector(_) | Expression::Fixed(_) | Expression::Advice(_) | Expression::Instance(_) => 1,
            Expression::Negated(a) | Expression::Scaled(a, _) => a.degree(),
            Expression::Sum(a, b) => a.degree().max(b.degree()),
            Expression::Product(a, b) => a.degree() + b.degree(),
        }
    }
    pub fn square(self) -> Self {
        self.clone() * self
    }
    fn has_simple_selector(&self) -> bool {
        match self {
            Expression::Selector(s) => s.is_simple(),
            Expression::Negated(a) | Expression::Scaled(a, _) => a.has_simple_selector(),
            Expression::Sum(a, b) | Expression::Product(a, b) => a.has_simple_selector() || b.has_simple_selector(),
            _ => false,
        }
    }
    fn advice_queries(&self, out: &mut BTreeSet<(usize, i32)>) {
        match self {
            Expression::Advice(q) => {
                out.insert((q.column_index, q.rotation.0));
            }
            Expression::Negated(a) | Expression::Scaled(a, _) => a.advice_queries(out),
            Expression::Sum(a, b) | Expression::Product(a, b) => {
                a.advice_queries(out);
                b.advice_queries(out);
            }
            _ => {}
        }
    }
}
impl<F: Field> Neg for Expression<F> {
    type Output = Expression<F>;
    fn neg(self) -> Self::Output {
        Expression::Negated(Box::new(self))
    }
}
impl<F: Field> Add for Expression<F> {
    type Output = Expression<F>;
    fn add(self, rhs: Expression<F>) -> Expression<F> {
        if self.has_simple_selector() || rhs.has_simple_selector() {
            panic!("attempted to use a simple selector in an addition");
        }
        Expression::Sum(Box::new(self), Box::new(rhs))
    }
}
impl<F: Field> Sub for Expression<F> {
    type Output = Expression<F>;
    fn sub(self, rhs: Expression<F>) -> Expression<F> {
        if self.has_simple_selector() || rhs.has_simple_selector() {
            panic!("attempted to use a simple selector in a subtraction");
        }
        Expression::Sum(Box::new(self), Box::new(-rhs))
    }
}
impl<F: Field> Mul for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, rhs: Expression<F>) -> Expression<F> {
        if self.has_simple_selector() && rhs.has_simple_selector() {
            panic!("attempted to multiply two expressions containing simple selectors");
        }
        Expression::Product(Box::new(self), Box::new(rhs))
    }
}
impl<F: Field> Mul<F> for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, rhs: F) -> Expression<F> {
        Expression::Scaled(Box::new(self), rhs)
    }
}
impl<F: Field> Sum<Self> for Expression<F> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.reduce(|a, b| a + b).unwrap_or(Expression::Constant(F::ZERO))
    }
}
impl<F: Field> Product<Self> for Expression<F> {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.reduce(|a, b| a * b).unwrap_or(Expression::Constant(F::ONE))
    }
}

// ------------------------------------------------------------------------------------- gates
#[derive(Debug)]
pub struct VirtualCells<'a, F: Field> {
    meta: &'a mut ConstraintSystem<F>,
    queries: usize,
}
impl<'a, F: Field> VirtualCells<'a, F> {
    pub fn query_selector(&mut self, s: Selector) -> Expression<F> {
        self.queries += 1;
        Expression::Selector(s)
    }
    pub fn query_fixed(&mut self, c: Column<Fixed>, at: Rotation) -> Expression<F> {
        self.queries += 1;
        Expression::Fixed(FixedQuery { column_index: c.index, rotation: at })
    }
    pub fn query_advice(&mut self, c: Column<Advice>, at: Rotation) -> Expression<F> {
        self.queries += 1;
        self.meta.advice_queries.insert((c.index, at.0));
        Expression::Advice(AdviceQuery { column_index: c.index, rotation: at })
    }
    pub fn query_instance(&mut self, c: Column<Instance>, at: Rotation) -> Expression<F> {
        self.queries += 1;
        Expression::Instance(InstanceQuery { column_index: c.index, rotation: at })
    }
    pub fn query_any<C: Into<Column<Any>>>(&mut self, c: C, at: Rotation) -> Expression<F> {
        let c = c.into();
        match c.column_type {
            Any::Advice(_) => self.query_advice(Column { column_type: Advice, index: c.index }, at),
            Any::Fixed => self.query_fixed(Column { column_type: Fixed, index: c.index }, at),
            Any::Instance => self.query_instance(Column { column_type: Instance, index: c.index }, at),
        }
    }
    pub fn query_challenge(&mut self, c: Challenge) -> Expression<F> {
        Expression::Challenge(c)
    }
}

#[derive(Debug, Clone)]
pub struct Constraint<F: Field> {
    pub name: String,
    pub poly: Expression<F>,
}
impl<F: Field> From<Expression<F>> for Constraint<F> {
    fn from(poly: Expression<F>) -> Self {
        Constraint { name: String::new(), poly }
    }
}
impl<F: Field, S: AsRef<str>> From<(S, Expression<F>)> for Constraint<F> {
    fn from((n, poly): (S, Expression<F>)) -> Self {
        Constraint { name: n.as_ref().to_string(), poly }
    }
}
impl<F: Field> From<Expression<F>> for Vec<Constraint<F>> {
    fn from(poly: Expression<F>) -> Self {
        vec![poly.into()]
    }
}
#[derive(Debug)]
pub struct Constraints<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> {
    selector: Expression<F>,
    constraints: Iter,
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> Constraints<F, C, Iter> {
    pub fn with_selector(selector: Expression<F>, constraints: Iter) -> Self {
        Constraints { selector, constraints }
    }
}
fn apply<F: Field, C: Into<Constraint<F>>>((s, c): (Expression<F>, C)) -> Constraint<F> {
    let c: Constraint<F> = c.into();
    Constraint { name: c.name, poly: s * c.poly }
}
type ApplyFn<F, C> = fn((Expression<F>, C)) -> Constraint<F>;
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> IntoIterator for Constraints<F, C, Iter> {
    type Item = Constraint<F>;
    type IntoIter = std::iter::Map<std::iter::Zip<std::iter::Repeat<Expression<F>>, Iter::IntoIter>, ApplyFn<F, C>>;
    fn into_iter(self) -> Self::IntoIter {
        std::iter::repeat(self.selector).zip(self.constraints).map(apply as ApplyFn<F, C>)
    }
}

#[derive(Clone, Debug)]
pub struct Gate<F: Field> {
    pub name: String,
    pub polys: Vec<Expression<F>>,
}
#[derive(Clone, Debug)]
pub struct Lookup<F: Field> {
    pub name: String,
    pub input: Vec<Expression<F>>,
    pub table: Vec<Expression<F>>,
}
#[derive(Clone, Debug)]
pub struct ConstraintSystem<F: Field> {
    pub num_fixed: usize,
    pub num_advice: usize,
    pub num_instance: usize,
    pub num_selectors: usize,
    pub num_challenges: usize,
    pub gates: Vec<Gate<F>>,
    pub lookups: Vec<Lookup<F>>,
    pub equality: BTreeSet<Column<Any>>,
    pub constants: Vec<Column<Fixed>>,
    pub table_columns: Vec<usize>,
    pub advice_queries: BTreeSet<(usize, i32)>,
    pub names: HashMap<usize, String>,
}
impl<F: Field> Default for ConstraintSystem<F> {
    fn default() -> Self {
        ConstraintSystem {
            num_fixed: 0,
            num_advice: 0,
            num_instance: 0,
            num_selectors: 0,
            num_challenges: 0,
            gates: vec![],
            lookups: vec![],
            equality: BTreeSet::new(),
            constants: vec![],
            table_columns: vec![],
            advice_queries: BTreeSet::new(),
            names: HashMap::new(),
        }
    }
}
impl<F: Field> ConstraintSystem<F> {
    pub fn enable_constant(&mut self, c: Column<Fixed>) {
        if !self.constants.contains(&c) {
            self.constants.push(c);
            self.enable_equality(c);
        }
    }
    pub fn enable_equality<C: Into<Column<Any>>>(&mut self, c: C) {
        let c = c.into();
        if let Any::Advice(_) = c.column_type {
            self.advice_queries.insert((c.index, 0));
        }
        self.equality.insert(c);
    }
    pub fn lookup<S: AsRef<str>>(&mut self, name: S, table_map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, TableColumn)>) -> usize {
        let mut cells = VirtualCells { meta: self, queries: 0 };
        let m = table_map(&mut cells);
        let (mut input, mut table) = (vec![], vec![]);
        for (i, t) in m {
            if i.has_simple_selector() {
                panic!("expression containing simple selector supplied to lookup argument");
            }
            input.push(i);
            table.push(Expression::Fixed(FixedQuery { column_index: t.inner.index, rotation: Rotation(0) }));
        }
        self.lookups.push(Lookup { name: name.as_ref().into(), input, table });
        self.lookups.len() - 1
    }
    pub fn lookup_any<S: AsRef<str>>(&mut self, name: S, table_map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, Expression<F>)>) -> usize {
        let mut cells = VirtualCells { meta: self, queries: 0 };
        let (input, table) = table_map(&mut cells).into_iter().unzip();
        self.lookups.push(Lookup { name: name.as_ref().into(), input, table });
        self.lookups.len() - 1
    }
    pub fn create_gate<C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>, S: AsRef<str>>(&mut self, name: S, constraints: impl FnOnce(&mut VirtualCells<'_, F>) -> Iter) {
        let mut cells = VirtualCells { meta: self, queries: 0 };
        let polys: Vec<Expression<F>> = constraints(&mut cells).into_iter().map(|c| c.into().poly).collect();
        assert!(!polys.is_empty(), "Gates must contain at least one constraint.");
        self.gates.push(Gate { name: name.as_ref().into(), polys });
    }
    pub fn selector(&mut self) -> Selector {
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, true)
    }
    pub fn complex_selector(&mut self) -> Selector {
        self.num_selectors += 1;
        Selector(self.num_selectors - 1, false)
    }
    pub fn lookup_table_column(&mut self) -> TableColumn {
        let inner = self.fixed_column();
        self.table_columns.push(inner.index);
        TableColumn { inner }
    }
    pub fn fixed_column(&mut self) -> Column<Fixed> {
        self.num_fixed += 1;
        Column { column_type: Fixed, index: self.num_fixed - 1 }
    }
    pub fn advice_column(&mut self) -> Column<Advice> {
        self.num_advice += 1;
        Column { column_type: Advice, index: self.num_advice - 1 }
    }
    pub fn advice_column_in<P: Phase>(&mut self, _: P) -> Column<Advice> {
        self.advice_column()
    }
    pub fn unblinded_advice_column(&mut self) -> Column<Advice> {
        self.advice_column()
    }
    pub fn instance_column(&mut self) -> Column<Instance> {
        self.num_instance += 1;
        Column { column_type: Instance, index: self.num_instance - 1 }
    }
    pub fn challenge_usable_after<P: Phase>(&mut self, _: P) -> Challenge {
        self.num_challenges += 1;
        Challenge { index: self.num_challenges - 1 }
    }
    pub fn annotate_lookup_column<A: Fn() -> AR, AR: Into<String>>(&mut self, _: TableColumn, _: A) {}
    pub fn annotate_lookup_any_column<A: Fn() -> AR, AR: Into<String>, T>(&mut self, _: T, _: A) {}
    pub fn set_minimum_degree(&mut self, _: usize) {}
    pub fn degree(&self) -> usize {
        self.gates.iter().flat_map(|g| g.polys.iter().map(|p| p.degree())).max().unwrap_or(0).max(3)
    }
    /// rows at the end that the prover fills with random values
    pub fn blinding_factors(&self) -> usize {
        let mut n: HashMap<usize, usize> = HashMap::new();
        for (c, _) in &self.advice_queries {
            *n.entry(*c).or_insert(0) += 1;
        }
        n.values().copied().max().unwrap_or(1).max(3) + 2
    }
    pub fn minimum_rows(&self) -> usize {
        self.blinding_factors() + 3
    }
    pub fn gates(&self) -> &Vec<Gate<F>> {
        &self.gates
    }
    pub fn lookups(&self) -> &Vec<Lookup<F>> {
        &self.lookups
    }
    pub fn num_advice_columns(&self) -> usize {
        self.num_advice
    }
    pub fn num_fixed_columns(&self) -> usize {
        self.num_fixed
    }
    pub fn num_selectors(&self) -> usize {
        self.num_selectors
    }
    pub fn all_advice_queries(&self) -> BTreeSet<(usize, i32)> {
        let mut s = self.advice_queries.clone();
        for g in &self.gates {
            for p in &g.polys {
                p.advice_queries(&mut s);
            }
        }
        s
    }
}

// ------------------------------------------------------------------------------------- circuits
pub trait FloorPlanner {}
pub trait Circuit<F: Field> {
    type Config: Clone;
    type FloorPlanner: FloorPlanner;
    fn without_witnesses(&self) -> Self;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config;
    fn synthesize(&self, config: Self::Config, layouter: impl Layouter<F>) -> Result<(), Error>;
}

// ------------------------------------------------------------------------------------- Assigned
#[derive(Clone, Copy, Debug)]
pub enum Assigned<F> {
    Zero,
    Trivial(F),
    Rational(F, F),
}
impl<F: Field> Assigned<F> {
    pub fn evaluate(self) -> F {
        match self {
            Assigned::Zero => F::ZERO,
            Assigned::Trivial(x) => x,
            Assigned::Rational(n, d) => n * d.invert().unwrap_or(F::ZERO),
        }
    }
    pub fn invert(&self) -> Self {
        match self {
            Assigned::Zero => Assigned::Zero,
            Assigned::Trivial(x) => Assigned::Rational(F::ONE, *x),
            Assigned::Rational(n, d) => Assigned::Rational(*d, *n),
        }
    }
}
impl<F: Field> From<F> for Assigned<F> {
    fn from(x: F) -> Self {
        Assigned::Trivial(x)
    }
}
impl<F: Field> From<&F> for Assigned<F> {
    fn from(x: &F) -> Self {
        Assigned::Trivial(*x)
    }
}
impl<F: Field> From<&Assigned<F>> for Assigned<F> {
    fn from(x: &Assigned<F>) -> Self {
        *x
    }
}
impl<F: Field> From<(F, F)> for Assigned<F> {
    fn from((a, b): (F, F)) -> Self {
        Assigned::Rational(a, b)
    }
}
pub(crate) fn field_of<F: Field, V>(v: &Value<V>) -> Value<F>
where
    for<'a> Assigned<F>: From<&'a V>,
{
    v.as_ref().map(|x| Assigned::from(x).evaluate())
}
