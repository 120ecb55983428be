use crate::plonk::*;
use ff::Field;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Add, Mul, Neg, Range, Sub};

// ------------------------------------------------------------------------------------- Value
#[derive(Clone, Copy, Debug)]
pub struct Value<V> {
    inner: Option<V>,
}
impl<V> Default for Value<V> {
    fn default() -> Self {
        Self::unknown()
    }
}
impl<V> Value<V> {
    pub const fn unknown() -> Self {
        Self { inner: None }
    }
    pub const fn known(v: V) -> Self {
        Self { inner: Some(v) }
    }
    pub fn into_option(self) -> Option<V> {
        self.inner
    }
    pub fn assign(self) -> Result<V, Error> {
        self.inner.ok_or(Error::Synthesis)
    }
    pub fn as_ref(&self) -> Value<&V> {
        Value { inner: self.inner.as_ref() }
    }
    pub fn as_mut(&mut self) -> Value<&mut V> {
        Value { inner: self.inner.as_mut() }
    }
    pub fn is_none(&self) -> bool {
        self.inner.is_none()
    }
    pub fn assert_if_known<F: FnOnce(&V) -> bool>(&self, f: F) {
        if let Some(v) = &self.inner {
            assert!(f(v));
        }
    }
    pub fn error_if_known_and<F: FnOnce(&V) -> bool>(&self, f: F) -> Result<(), Error> {
        match &self.inner {
            Some(v) if f(v) => Err(Error::Synthesis),
            _ => Ok(()),
        }
    }
    pub fn map<W, F: FnOnce(V) -> W>(self, f: F) -> Value<W> {
        Value { inner: self.inner.map(f) }
    }
    pub fn and_then<W, F: FnOnce(V) -> Value<W>>(self, f: F) -> Value<W> {
        match self.inner {
            Some(v) => f(v),
            None => Value::unknown(),
        }
    }
    pub fn zip<W>(self, other: Value<W>) -> Value<(V, W)> {
        Value { inner: self.inner.zip(other.inner) }
    }
}
impl<V, W> Value<(V, W)> {
    pub fn unzip(self) -> (Value<V>, Value<W>) {
        match self.inner {
            Some((a, b)) => (Value::known(a), Value::known(b)),
            None => (Value::unknown(), Value::unknown()),
        }
    }
}
impl<V> Value<&V> {
    pub fn copied(self) -> Value<V>
    where
        V: Copy,
    {
        Value { inner: self.inner.copied() }
    }
    pub fn cloned(self) -> Value<V>
    where
        V: Clone,
    {
        Value { inner: self.inner.cloned() }
    }
}
impl<V, const N: usize> Value<[V; N]> {
    pub fn transpose_array(self) -> [Value<V>; N] {
        match self.inner {
            Some(a) => a.map(Value::known),
            None => [(); N].map(|_| Value::unknown()),
        }
    }
}
impl<V, I: IntoIterator<Item = V>> Value<I>
where
    I::IntoIter: ExactSizeIterator,
{
    pub fn transpose_vec(self, n: usize) -> Vec<Value<V>> {
        match self.inner {
            Some(v) => v.into_iter().map(Value::known).collect(),
            None => (0..n).map(|_| Value::unknown()).collect(),
        }
    }
}
impl<A, V: FromIterator<A>> FromIterator<Value<A>> for Value<V> {
    fn from_iter<I: IntoIterator<Item = Value<A>>>(iter: I) -> Self {
        Value { inner: iter.into_iter().map(|v| v.inner).collect() }
    }
}
impl<V: Neg> Neg for Value<V> {
    type Output = Value<V::Output>;
    fn neg(self) -> Self::Output {
        Value { inner: self.inner.map(|v| -v) }
    }
}
macro_rules! ops {
    ($t:ident, $f:ident) => {
        impl<V: $t<Output = O>, O> $t for Value<V> {
            type Output = Value<O>;
            fn $f(self, rhs: Self) -> Value<O> {
                Value { inner: self.inner.zip(rhs.inner).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<V, O> $t for &Value<V>
        where
            for<'v> &'v V: $t<Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, rhs: Self) -> Value<O> {
                Value { inner: self.inner.as_ref().zip(rhs.inner.as_ref()).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<V, O> $t<&Value<V>> for Value<V>
        where
            for<'v> V: $t<&'v V, Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, rhs: &Value<V>) -> Value<O> {
                Value { inner: self.inner.zip(rhs.inner.as_ref()).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<V, O> $t<Value<V>> for &Value<V>
        where
            for<'v> &'v V: $t<V, Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, rhs: Value<V>) -> Value<O> {
                Value { inner: self.inner.as_ref().zip(rhs.inner).map(|(a, b)| a.$f(b)) }
            }
        }
    };
}
ops!(Add, add);
ops!(Sub, sub);
ops!(Mul, mul);
impl<V> Value<V> {
    pub fn to_field<F: Field>(&self) -> Value<Assigned<F>>
    where
        for<'v> Assigned<F>: From<&'v V>,
    {
        Value { inner: self.inner.as_ref().map(|v| v.into()) }
    }
    pub fn into_field<F: Field>(self) -> Value<Assigned<F>>
    where
        V: Into<Assigned<F>>,
    {
        Value { inner: self.inner.map(|v| v.into()) }
    }
    pub fn double<F: Field>(&self) -> Value<F>
    where
        V: Clone + Into<F>,
    {
        Value { inner: self.inner.clone().map(|v| v.into().double()) }
    }
    pub fn square<F: Field>(&self) -> Value<F>
    where
        V: Clone + Into<F>,
    {
        Value { inner: self.inner.clone().map(|v| v.into().square()) }
    }
}
impl<F: Field> Value<Assigned<F>> {
    pub fn evaluate(self) -> Value<F> {
        Value { inner: self.inner.map(|v| v.evaluate()) }
    }
}

// ------------------------------------------------------------------------------------- cells
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RegionIndex(pub usize);
impl std::ops::Deref for RegionIndex {
    type Target = usize;
    fn deref(&self) -> &usize {
        &self.0
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cell {
    pub region_index: RegionIndex,
    pub row_offset: usize,
    pub column: Column<Any>,
}
#[derive(Clone, Debug)]
pub struct AssignedCell<V, F: Field> {
    value: Value<V>,
    cell: Cell,
    _m: PhantomData<F>,
}
impl<V, F: Field> AssignedCell<V, F> {
    pub fn value(&self) -> Value<&V> {
        self.value.as_ref()
    }
    pub fn cell(&self) -> Cell {
        self.cell
    }
    pub fn row_offset(&self) -> usize {
        self.cell.row_offset
    }
    pub fn region_index(&self) -> RegionIndex {
        self.cell.region_index
    }
}
impl<V, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    pub fn value_field(&self) -> Value<Assigned<F>> {
        self.value.to_field()
    }
}
impl<V: Clone, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    pub fn copy_advice<A: Fn() -> AR, AR: Into<String>>(&self, annotation: A, region: &mut Region<'_, F>, column: Column<Advice>, offset: usize) -> Result<Self, Error> {
        let c = region.assign_advice(annotation, column, offset, || self.value.clone())?;
        region.constrain_equal(c.cell(), self.cell())?;
        Ok(c)
    }
}

// ------------------------------------------------------------------------------------- recording
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RegionColumn {
    Column(Column<Any>),
    Selector(Selector),
}
#[derive(Clone, Debug)]
pub struct RegionInfo {
    pub name: String,
    pub start: usize,
    pub rows: usize,
    pub columns: BTreeSet<RegionColumn>,
}
/// what a circuit assigned: rows are absolute
#[derive(Clone, Debug)]
pub struct Record<F: Field> {
    /// false: as key generation does, witness values are never asked for
    pub witness: bool,
    pub fixed: BTreeMap<(usize, usize), F>,
    pub advice: BTreeMap<(usize, usize), F>,
    pub advice_assigned: BTreeSet<(usize, usize)>,
    pub selectors: BTreeSet<(usize, usize)>,
    pub copies: Vec<((Column<Any>, usize), (Column<Any>, usize))>,
    pub tables: BTreeMap<usize, Vec<F>>,
    pub regions: Vec<RegionInfo>,
    pub equality: BTreeSet<Column<Any>>,
    pub constants: Vec<Column<Fixed>>,
    /// order in which the bodies of parallel regions run: 0 given, 1 reversed
    pub order: usize,
    /// assignments of different values to one fixed cell
    pub conflicts: Vec<String>,
    columns: HashMap<RegionColumn, usize>,
    rw: Option<Range<usize>>,
}
impl<F: Field> Record<F> {
    pub fn new(cs: &ConstraintSystem<F>, witness: bool) -> Self {
        Record {
            witness,
            fixed: BTreeMap::new(),
            advice: BTreeMap::new(),
            advice_assigned: BTreeSet::new(),
            selectors: BTreeSet::new(),
            copies: vec![],
            tables: BTreeMap::new(),
            regions: vec![],
            equality: cs.equality.clone(),
            constants: cs.constants.clone(),
            order: 0,
            conflicts: vec![],
            columns: HashMap::new(),
            rw: None,
        }
    }
    pub fn rows(&self) -> usize {
        let a = self.advice_assigned.iter().map(|x| x.1 + 1).max().unwrap_or(0);
        let b = self.fixed.keys().map(|x| x.1 + 1).max().unwrap_or(0);
        let c = self.selectors.iter().map(|x| x.1 + 1).max().unwrap_or(0);
        let d = self.tables.values().map(|x| x.len()).max().unwrap_or(0);
        let e = self.regions.iter().map(|r| r.start + r.rows).max().unwrap_or(0);
        a.max(b).max(c).max(d).max(e)
    }
    fn row_ok(&self, row: usize) -> Result<(), Error> {
        match &self.rw {
            // a forked sub-assignment may only touch the rows of its own region
            Some(r) if !r.contains(&row) => Err(Error::Synthesis),
            _ => Ok(()),
        }
    }
    fn copy(&mut self, l: (Column<Any>, usize), r: (Column<Any>, usize)) -> Result<(), Error> {
        for (c, _) in [l, r] {
            if !self.equality.contains(&c) {
                return Err(Error::ColumnNotInPermutation(c));
            }
        }
        self.copies.push((l, r));
        Ok(())
    }
}

pub trait RegionLayouter<F: Field>: fmt::Debug {
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error>;
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, to: &mut dyn FnMut() -> Value<F>) -> Result<Cell, Error>;
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, to: &mut dyn FnMut() -> Value<F>) -> Result<Cell, Error>;
    fn constrain_constant(&mut self, cell: Cell, constant: F) -> Result<(), Error>;
    fn constrain_equal(&mut self, l: Cell, r: Cell) -> Result<(), Error>;
    fn global_offset(&self, offset: usize) -> usize;
}
#[derive(Debug)]
struct Shape {
    index: RegionIndex,
    columns: BTreeSet<RegionColumn>,
    rows: usize,
}
impl Shape {
    fn touch(&mut self, c: RegionColumn, offset: usize) {
        self.columns.insert(c);
        self.rows = self.rows.max(offset + 1);
    }
    fn cell(&mut self, c: Column<Any>, offset: usize) -> Cell {
        self.touch(RegionColumn::Column(c), offset);
        Cell { region_index: self.index, row_offset: offset, column: c }
    }
}
impl<F: Field> RegionLayouter<F> for Shape {
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error> {
        self.touch(RegionColumn::Selector(*s), offset);
        Ok(())
    }
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, _: &mut dyn FnMut() -> Value<F>) -> Result<Cell, Error> {
        Ok(self.cell(c.into(), offset))
    }
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, _: &mut dyn FnMut() -> Value<F>) -> Result<Cell, Error> {
        Ok(self.cell(c.into(), offset))
    }
    fn constrain_constant(&mut self, _: Cell, _: F) -> Result<(), Error> {
        Ok(())
    }
    fn constrain_equal(&mut self, _: Cell, _: Cell) -> Result<(), Error> {
        Ok(())
    }
    fn global_offset(&self, offset: usize) -> usize {
        offset
    }
}
#[derive(Debug)]
struct Place<'a, F: Field> {
    rec: &'a mut Record<F>,
    index: RegionIndex,
    constants: Vec<(F, Cell)>,
}
impl<F: Field> Place<'_, F> {
    fn row(&self, offset: usize) -> usize {
        self.rec.regions[self.index.0].start + offset
    }
    fn at(&self, c: Cell) -> (Column<Any>, usize) {
        (c.column, self.rec.regions[c.region_index.0].start + c.row_offset)
    }
}
impl<F: Field> RegionLayouter<F> for Place<'_, F> {
    fn enable_selector(&mut self, s: &Selector, offset: usize) -> Result<(), Error> {
        let row = self.row(offset);
        self.rec.row_ok(row)?;
        self.rec.selectors.insert((s.0, row));
        Ok(())
    }
    fn assign_advice(&mut self, c: Column<Advice>, offset: usize, to: &mut dyn FnMut() -> Value<F>) -> Result<Cell, Error> {
        let row = self.row(offset);
        self.rec.row_ok(row)?;
        self.rec.advice_assigned.insert((c.index, row));
        if self.rec.witness {
            let v = to().assign()?;
            self.rec.advice.insert((c.index, row), v);
        }
        Ok(Cell { region_index: self.index, row_offset: offset, column: c.into() })
    }
    fn assign_fixed(&mut self, c: Column<Fixed>, offset: usize, to: &mut dyn FnMut() -> Value<F>) -> Result<Cell, Error> {
        let row = self.row(offset);
        self.rec.row_ok(row)?;
        let v = to().assign()?;
        if let Some(old) = self.rec.fixed.insert((c.index, row), v) {
            if format!("{old:?}") != format!("{v:?}") {
                self.rec.conflicts.push(format!("fixed column {} row {row}: {old:?} then {v:?}", c.index));
            }
        }
        Ok(Cell { region_index: self.index, row_offset: offset, column: c.into() })
    }
    fn constrain_constant(&mut self, cell: Cell, constant: F) -> Result<(), Error> {
        self.constants.push((constant, cell));
        Ok(())
    }
    fn constrain_equal(&mut self, l: Cell, r: Cell) -> Result<(), Error> {
        let (l, r) = (self.at(l), self.at(r));
        self.rec.copy(l, r)
    }
    fn global_offset(&self, offset: usize) -> usize {
        self.row(offset)
    }
}

#[derive(Debug)]
pub struct Region<'r, F: Field> {
    region: &'r mut dyn RegionLayouter<F>,
}
impl<'r, F: Field> From<&'r mut dyn RegionLayouter<F>> for Region<'r, F> {
    fn from(region: &'r mut dyn RegionLayouter<F>) -> Self {
        Region { region }
    }
}
impl<'r, F: Field> Region<'r, F> {
    pub fn enable_selector<A: Fn() -> AR, AR: Into<String>>(&mut self, _: A, s: &Selector, offset: usize) -> Result<(), Error> {
        self.region.enable_selector(s, offset)
    }
    pub fn name_column<A: Fn() -> AR, AR: Into<String>, T: Into<Column<Any>>>(&mut self, _: A, _: T) {}
    pub fn global_offset(&self, offset: usize) -> usize {
        self.region.global_offset(offset)
    }
    pub fn assign_advice<'v, V, VR, A, AR>(&'v mut self, _annotation: A, column: Column<Advice>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let mut value = Value::unknown();
        let cell = self.region.assign_advice(column, offset, &mut || {
            let v = to();
            let f = field_of::<F, VR>(&v);
            value = v;
            f
        })?;
        Ok(AssignedCell { value, cell, _m: PhantomData })
    }
    pub fn assign_advice_from_constant<VR, A, AR>(&mut self, annotation: A, column: Column<Advice>, offset: usize, constant: VR) -> Result<AssignedCell<VR, F>, Error>
    where
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let _ = annotation;
        let v = Assigned::from(&constant).evaluate();
        let cell = self.region.assign_advice(column, offset, &mut || Value::known(v))?;
        self.region.constrain_constant(cell, v)?;
        Ok(AssignedCell { value: Value::known(constant), cell, _m: PhantomData })
    }
    pub fn assign_fixed<'v, V, VR, A, AR>(&'v mut self, _annotation: A, column: Column<Fixed>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let mut value = Value::unknown();
        let cell = self.region.assign_fixed(column, offset, &mut || {
            let v = to();
            let f = field_of::<F, VR>(&v);
            value = v;
            f
        })?;
        Ok(AssignedCell { value, cell, _m: PhantomData })
    }
    pub fn constrain_constant<VR>(&mut self, cell: Cell, constant: VR) -> Result<(), Error>
    where
        VR: Into<Assigned<F>>,
    {
        self.region.constrain_constant(cell, constant.into().evaluate())
    }
    pub fn constrain_equal(&mut self, left: Cell, right: Cell) -> Result<(), Error> {
        self.region.constrain_equal(left, right)
    }
}

#[derive(Debug)]
pub struct Table<'r, F: Field> {
    cols: &'r mut BTreeMap<usize, BTreeMap<usize, Option<F>>>,
    used: &'r BTreeMap<usize, Vec<F>>,
}
impl<'r, F: Field> Table<'r, F> {
    pub fn assign_cell<'v, V, VR, A, AR>(&'v mut self, _annotation: A, column: TableColumn, offset: usize, mut to: V) -> Result<(), Error>
    where
        V: FnMut() -> Value<VR> + 'v,
        VR: Into<Assigned<F>>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let c = column.inner().index();
        if self.used.contains_key(&c) {
            return Err(Error::TableError("column already used".into()));
        }
        let v = to().into_option().map(|x| x.into().evaluate());
        self.cols.entry(c).or_default().insert(offset, v);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------- layouters
pub trait Chip<F: Field>: Sized {
    type Config: fmt::Debug + Clone;
    type Loaded: fmt::Debug + Clone;
    fn config(&self) -> &Self::Config;
    fn loaded(&self) -> &Self::Loaded;
}
pub trait Layouter<F: Field> {
    type Root: Layouter<F>;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>;
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>;
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>;
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error>;
    fn get_root(&mut self) -> &mut Self::Root;
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, name_fn: N);
    fn pop_namespace(&mut self, gadget_name: Option<String>);
    fn namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, name_fn: N) -> NamespacedLayouter<'_, F, Self::Root> {
        self.get_root().push_namespace(name_fn);
        NamespacedLayouter(self.get_root(), PhantomData)
    }
}
#[derive(Debug)]
pub struct NamespacedLayouter<'a, F: Field, L: Layouter<F> + 'a>(&'a mut L, PhantomData<F>);
impl<'a, F: Field, L: Layouter<F> + 'a> Layouter<F> for NamespacedLayouter<'a, F, L> {
    type Root = L::Root;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_region(name, assignment)
    }
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_regions(name, assignments)
    }
    fn assign_table<A, N, NR>(&mut self, name: N, assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        self.0.assign_table(name, assignment)
    }
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        self.0.constrain_instance(cell, column, row)
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self.0.get_root()
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
    fn pop_namespace(&mut self, _: Option<String>) {}
}

#[derive(Debug)]
pub struct SimpleFloorPlanner;
impl FloorPlanner for SimpleFloorPlanner {}

/// Single-pass placement as SimpleFloorPlanner does it: every region starts at the first row that is free in
/// all the columns its shape uses. Parallel regions are all placed first, then assigned, each confined to its rows.
#[derive(Debug)]
pub struct RecordingLayouter<F: Field> {
    pub rec: Record<F>,
}
impl<F: Field> RecordingLayouter<F> {
    pub fn new(cs: &ConstraintSystem<F>, witness: bool) -> Self {
        RecordingLayouter { rec: Record::new(cs, witness) }
    }
    fn place(&mut self, name: String, shape: Shape) {
        let start = shape.columns.iter().map(|c| self.rec.columns.get(c).copied().unwrap_or(0)).max().unwrap_or(0);
        for c in &shape.columns {
            self.rec.columns.insert(*c, start + shape.rows);
        }
        self.rec.regions.push(RegionInfo { name, start, rows: shape.rows, columns: shape.columns });
    }
    fn constants(&mut self, constants: Vec<(F, Cell)>) -> Result<(), Error> {
        if constants.is_empty() {
            return Ok(());
        }
        let Some(col) = self.rec.constants.first().copied() else {
            return Err(Error::NotEnoughColumnsForConstants);
        };
        let key = RegionColumn::Column(col.into());
        for (v, cell) in constants {
            let row = self.rec.columns.get(&key).copied().unwrap_or(0);
            self.rec.fixed.insert((col.index(), row), v);
            let at = (cell.column, self.rec.regions[cell.region_index.0].start + cell.row_offset);
            self.rec.copy((col.into(), row), at)?;
            self.rec.columns.insert(key, row + 1);
        }
        Ok(())
    }
}
impl<F: Field> Layouter<F> for RecordingLayouter<F> {
    type Root = Self;
    fn assign_region<A, AR, N, NR>(&mut self, name: N, mut assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let index = RegionIndex(self.rec.regions.len());
        let mut shape = Shape { index, columns: BTreeSet::new(), rows: 0 };
        {
            let r: &mut dyn RegionLayouter<F> = &mut shape;
            assignment(r.into())?;
        }
        self.place(name().into(), shape);
        let mut p = Place { rec: &mut self.rec, index, constants: vec![] };
        let result = {
            let r: &mut dyn RegionLayouter<F> = &mut p;
            assignment(r.into())?
        };
        let c = p.constants;
        self.constants(c)?;
        Ok(result)
    }
    fn assign_regions<A, AR, N, NR>(&mut self, name: N, mut assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let first = self.rec.regions.len();
        for (i, a) in assignments.iter_mut().enumerate() {
            let mut shape = Shape { index: RegionIndex(first + i), columns: BTreeSet::new(), rows: 0 };
            {
                let r: &mut dyn RegionLayouter<F> = &mut shape;
                a(r.into())?;
            }
            self.place(format!("{}_{i}", name().into()), shape);
        }
        let n = assignments.len();
        let mut out: Vec<Option<AR>> = (0..n).map(|_| None).collect();
        let mut consts: Vec<Vec<(F, Cell)>> = (0..n).map(|_| vec![]).collect();
        let order: Vec<usize> = if self.rec.order == 1 { (0..n).rev().collect() } else { (0..n).collect() };
        for i in order {
            let info = &self.rec.regions[first + i];
            self.rec.rw = Some(info.start..info.start + info.rows);
            let mut p = Place { rec: &mut self.rec, index: RegionIndex(first + i), constants: vec![] };
            let r = {
                let r: &mut dyn RegionLayouter<F> = &mut p;
                assignments[i](r.into())
            };
            consts[i] = p.constants;
            self.rec.rw = None;
            out[i] = Some(r?);
        }
        for c in consts {
            self.constants(c)?;
        }
        Ok(out.into_iter().map(|x| x.unwrap()).collect())
    }
    fn assign_table<A, N, NR>(&mut self, _: N, mut assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let mut cols = BTreeMap::new();
        assignment(Table { cols: &mut cols, used: &self.rec.tables })?;
        let len = cols.values().next().map(|c: &BTreeMap<usize, Option<F>>| c.len()).unwrap_or(0);
        for (c, cells) in cols {
            if cells.is_empty() || cells.len() != len || !cells.keys().copied().eq(0..len) {
                return Err(Error::TableError("table column not filled evenly".into()));
            }
            let mut v = vec![];
            for x in cells.into_values() {
                v.push(x.ok_or(Error::Synthesis)?);
            }
            self.rec.tables.insert(c, v);
        }
        Ok(())
    }
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        let at = (cell.column, self.rec.regions[cell.region_index.0].start + cell.row_offset);
        self.rec.copy(at, (column.into(), row))
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
    fn pop_namespace(&mut self, _: Option<String>) {}
}
