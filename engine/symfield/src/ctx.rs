//! Expression DAG and concolic decisions.
use crate::arith::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Mutex;

pub type Id = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    Neg,
    Inv,
    Root5,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    /// 0 = implementation, 1 = reference, 2 = shared (variables and constants)
    pub ns: u8,
    pub f: u8,
    pub a: Id,
    pub b: Id,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    Eq,
    Lt,
}

#[derive(Clone, Copy, Debug)]
pub struct Decision {
    pub rel: Rel,
    pub f: u8,
    pub a: Id,
    pub b: Id,
    pub outcome: bool,
    /// true when the code under test (not the reference) took the decision
    pub by_impl: bool,
}

pub struct Obligation {
    pub label: String,
    pub f: u8,
    pub got: Id,
    pub want: Id,
    /// a lemma offered to the prover, not a claim of the property
    pub hint: bool,
}

#[derive(Default)]
pub struct Ctx {
    pub nodes: Vec<Node>,
    pub consts: Vec<L4>,
    pub vals: Vec<L4>,
    map: FxMap<(Op, u8, u8, Id, Id), Id>,
    cmap: FxMap<(u8, L4), Id>,
    pub vars: Vec<(String, Id)>,
    varmap: HashMap<String, Id>,
    pub model: HashMap<String, L4>,
    pub rng: u64,
    pub ns: u8,
    pub decisions: Vec<Decision>,
    seen_dec: FxMap<(u8, Id, Id), bool>,
    pub escapes: usize,
    pub escape_vals: FxMap<(u8, L4), Id>,
    pub obligations: Vec<Obligation>,
    pub notes: Vec<String>,
    pub refuted_plain: Vec<(String, String)>,
    pub proved_plain: usize,
    /// (label, SMT-LIB text that must be unsatisfiable)
    pub smt: Vec<(String, String)>,
    pub fresh: usize,
    /// (node, original) pairs: facts assumed by construction, e.g. fresh symbol == expression
    pub axioms: Vec<(u8, Id, Id)>,
}

pub static CTX: Mutex<Option<Box<Ctx>>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let mut g = match CTX.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let c = g.get_or_insert_with(Default::default);
    f(c)
}

pub const SYM: u64 = u64::MAX;

#[inline]
pub fn is_sym(l: &L4) -> bool {
    l[3] == SYM
}
#[inline]
pub fn sym_limbs(id: Id) -> L4 {
    [id as u64, 0, 0, SYM]
}

impl Ctx {
    pub fn mkconst(&mut self, f: u8, v: L4) -> Id {
        if let Some(i) = self.cmap.get(&(f, v)) {
            return *i;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.push(Node { op: Op::Const, ns: 2, f, a: ci, b: 0 }, v);
        self.cmap.insert((f, v), id);
        id
    }
    pub fn id_of(&mut self, f: u8, l: &L4) -> Id {
        if is_sym(l) {
            l[0] as Id
        } else {
            self.mkconst(f, *l)
        }
    }
    fn push(&mut self, n: Node, v: L4) -> Id {
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.vals.push(v);
        id
    }
    pub fn var(&mut self, f: u8, name: &str) -> Id {
        if let Some(i) = self.varmap.get(name) {
            return *i;
        }
        let v = match self.model.get(name) {
            Some(v) => *v,
            None => {
                // default value: depends on the run seed and the variable's name only
                let mut h = self.rng ^ 0x243F6A8885A308D3;
                for c in name.bytes() {
                    h = (h ^ c as u64).wrapping_mul(0x100000001b3).rotate_left(17);
                }
                Rng(h).field(&MODULI[f as usize])
            }
        };
        let k = self.vars.len() as Id;
        let id = self.push(Node { op: Op::Var, ns: 2, f, a: k, b: 0 }, v);
        self.vars.push((name.to_string(), id));
        self.varmap.insert(name.to_string(), id);
        id
    }
    pub fn eval_op(m: &Modulus, op: Op, a: &L4, b: &L4) -> L4 {
        match op {
            Op::Add => m.add(a, b),
            Op::Sub => m.sub(a, b),
            Op::Mul => m.mul(a, b),
            Op::Neg => m.neg(a),
            Op::Inv => m.inv(a),
            Op::Root5 => m.root5(a).expect("no fifth root map in this field"),
            _ => unreachable!(),
        }
    }
    pub fn mk(&mut self, op: Op, f: u8, mut a: Id, mut b: Id) -> Id {
        if matches!(op, Op::Add | Op::Mul) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let key = (op, self.ns, f, a, b);
        if let Some(i) = self.map.get(&key) {
            return *i;
        }
        let m = &MODULI[f as usize];
        let v = Self::eval_op(m, op, &self.vals[a as usize], &self.vals[b as usize]);
        let id = self.push(Node { op, ns: self.ns, f, a, b }, v);
        self.map.insert(key, id);
        id
    }
    pub fn is_const(&self, id: Id) -> bool {
        self.nodes[id as usize].op == Op::Const
    }
    pub fn decide(&mut self, rel: Rel, f: u8, a: Id, b: Id) -> bool {
        if a == b {
            return rel == Rel::Eq;
        }
        let (va, vb) = (self.vals[a as usize], self.vals[b as usize]);
        let out = match rel {
            Rel::Eq => va == vb,
            Rel::Lt => !geq(&va, &vb),
        };
        if self.is_const(a) && self.is_const(b) {
            return out;
        }
        let key = match rel {
            Rel::Eq => (0u8, a.min(b), a.max(b)),
            Rel::Lt => (1u8, a, b),
        };
        if self.seen_dec.contains_key(&key) {
            return out;
        }
        self.seen_dec.insert(key, out);
        let by_impl = self.ns == 0;
        self.decisions.push(Decision { rel, f, a, b, outcome: out, by_impl });
        out
    }
    /// node with its constant/variable expression printed (small depth), for messages
    pub fn show(&self, id: Id, depth: usize) -> String {
        let n = self.nodes[id as usize];
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                if v[1] == 0 && v[2] == 0 && v[3] == 0 {
                    v[0].to_string()
                } else {
                    to_hex(&v)
                }
            }
            Op::Var => self.vars[n.a as usize].0.clone(),
            _ if depth == 0 => format!("#{id}"),
            Op::Add => format!("({} + {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
            Op::Sub => format!("({} - {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
            Op::Mul => format!("({} * {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
            Op::Neg => format!("(-{})", self.show(n.a, depth - 1)),
            Op::Inv => format!("(1/{})", self.show(n.a, depth - 1)),
            Op::Root5 => format!("root5({})", self.show(n.a, depth - 1)),
        }
    }
    /// evaluates all nodes under a variable assignment (index in self.vars -> value)
    pub fn eval_all(&self, vars: &[L4]) -> Vec<L4> {
        let mut out: Vec<L4> = Vec::with_capacity(self.nodes.len());
        for n in &self.nodes {
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => vars[n.a as usize],
                op => {
                    let z = ZERO;
                    let b = if (n.b as usize) < out.len() { out[n.b as usize] } else { z };
                    Self::eval_op(&MODULI[n.f as usize], op, &out[n.a as usize], &b)
                }
            };
            out.push(v);
        }
        out
    }
    /// evaluates one node (memoised over its cone)
    pub fn eval_one(&self, id: Id, vars: &[L4], memo: &mut FxMap<Id, L4>) -> L4 {
        let mut stack = vec![id];
        while let Some(&t) = stack.last() {
            if memo.contains_key(&t) {
                stack.pop();
                continue;
            }
            let n = self.nodes[t as usize];
            match n.op {
                Op::Const => {
                    memo.insert(t, self.consts[n.a as usize]);
                    stack.pop();
                }
                Op::Var => {
                    memo.insert(t, vars[n.a as usize]);
                    stack.pop();
                }
                op => {
                    let unary = matches!(op, Op::Neg | Op::Inv | Op::Root5);
                    let ra = memo.get(&n.a).copied();
                    let rb = if unary { Some(ZERO) } else { memo.get(&n.b).copied() };
                    match (ra, rb) {
                        (Some(x), Some(y)) => {
                            memo.insert(t, Self::eval_op(&MODULI[n.f as usize], op, &x, &y));
                            stack.pop();
                        }
                        _ => {
                            if ra.is_none() {
                                stack.push(n.a);
                            }
                            if rb.is_none() {
                                stack.push(n.b);
                            }
                        }
                    }
                }
            }
        }
        memo[&id]
    }
    pub fn support(&self, id: Id) -> Vec<usize> {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![id];
        let mut out = vec![];
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            let n = self.nodes[t as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.a as usize),
                Op::Neg | Op::Inv | Op::Root5 => st.push(n.a),
                _ => {
                    st.push(n.a);
                    st.push(n.b);
                }
            }
        }
        out.sort();
        out
    }
    pub fn limbs_of(&self, id: Id) -> L4 {
        let n = self.nodes[id as usize];
        if n.op == Op::Const {
            self.consts[n.a as usize]
        } else {
            sym_limbs(id)
        }
    }
    /// text form of the nodes from `n0` on, the decisions from `d0` on, and the given roots
    pub fn export(&self, n0: usize, d0: usize, roots: &[Id]) -> String {
        use std::fmt::Write;
        let mut o = String::new();
        for (i, n) in self.nodes.iter().enumerate().skip(n0) {
            let _ = match n.op {
                Op::Const => writeln!(o, "c {i} {} {}", n.f, to_hex(&self.consts[n.a as usize])),
                Op::Var => writeln!(o, "v {i} {} {}", n.f, self.vars[n.a as usize].0),
                op => writeln!(o, "n {i} {} {} {} {}", n.f, op as u8, n.a, n.b),
            };
        }
        for d in &self.decisions[d0..] {
            let _ = writeln!(o, "d {} {} {} {} {}", d.f, d.rel as u8, d.a, d.b, d.outcome as u8);
        }
        for r in roots {
            let _ = writeln!(o, "r {} {r}", self.nodes[*r as usize].f);
        }
        o
    }
    /// rebuilds an export in the current name space; returns the roots
    pub fn import(&mut self, text: &str) -> Vec<(Id, u8)> {
        const OPS: [Op; 8] = [Op::Const, Op::Var, Op::Add, Op::Sub, Op::Mul, Op::Neg, Op::Inv, Op::Root5];
        let mut map: FxMap<Id, Id> = Default::default();
        let mut out = vec![];
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let g = |k: usize| w[k].parse::<u32>().unwrap();
            match w[0] {
                "c" => {
                    let id = self.mkconst(g(2) as u8, from_hex(w[3]));
                    map.insert(g(1), id);
                }
                "v" => {
                    let id = self.var(g(2) as u8, w[3]);
                    map.insert(g(1), id);
                }
                "n" => {
                    let op = OPS[g(3) as usize];
                    let a = map.get(&g(4)).copied().unwrap_or(g(4));
                    let b = if matches!(op, Op::Neg | Op::Inv | Op::Root5) { 0 } else { map.get(&g(5)).copied().unwrap_or(g(5)) };
                    let id = self.mk(op, g(2) as u8, a, b);
                    map.insert(g(1), id);
                }
                "d" => {
                    let a = map.get(&g(3)).copied().unwrap_or(g(3));
                    let b = map.get(&g(4)).copied().unwrap_or(g(4));
                    self.decide(if g(2) == 0 { Rel::Eq } else { Rel::Lt }, g(1) as u8, a, b);
                }
                "r" => out.push((map.get(&g(2)).copied().unwrap_or(g(2)), g(1) as u8)),
                _ => {}
            }
        }
        out
    }
    pub fn var_values(&self) -> Vec<L4> {
        self.vars.iter().map(|(_, id)| self.vals[*id as usize]).collect()
    }
}

// ---- operations used by the stand-in field types -------------------------------------------

#[inline]
pub fn bin(f: u8, op: Op, a: &L4, b: &L4) -> L4 {
    let m = &MODULI[f as usize];
    if !is_sym(a) && !is_sym(b) {
        return Ctx::eval_op(m, op, a, b);
    }
    // constructor simplifications (part of the trusted base)
    match op {
        Op::Add => {
            if *a == ZERO {
                return *b;
            }
            if *b == ZERO {
                return *a;
            }
        }
        Op::Sub => {
            if *b == ZERO {
                return *a;
            }
            if a == b {
                return ZERO;
            }
        }
        Op::Mul => {
            if *a == ZERO || *b == ZERO {
                return ZERO;
            }
            if *a == ONE {
                return *b;
            }
            if *b == ONE {
                return *a;
            }
        }
        _ => {}
    }
    with(|c| {
        let ia = c.id_of(f, a);
        let ib = c.id_of(f, b);
        sym_limbs(c.mk(op, f, ia, ib))
    })
}
#[inline]
pub fn un(f: u8, op: Op, a: &L4) -> L4 {
    if !is_sym(a) {
        return Ctx::eval_op(&MODULI[f as usize], op, a, &ZERO);
    }
    with(|c| {
        let ia = c.id_of(f, a);
        sym_limbs(c.mk(op, f, ia, 0))
    })
}
pub fn eq(f: u8, a: &L4, b: &L4) -> bool {
    if a == b {
        return true;
    }
    if !is_sym(a) && !is_sym(b) {
        return false;
    }
    with(|c| {
        let ia = c.id_of(f, a);
        let ib = c.id_of(f, b);
        c.decide(Rel::Eq, f, ia, ib)
    })
}
pub fn cmp(f: u8, a: &L4, b: &L4) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    if a == b {
        return Equal;
    }
    if !is_sym(a) && !is_sym(b) {
        return if geq(a, b) { Greater } else { Less };
    }
    with(|c| {
        let ia = c.id_of(f, a);
        let ib = c.id_of(f, b);
        if c.decide(Rel::Eq, f, ia, ib) {
            Equal
        } else if c.decide(Rel::Lt, f, ia, ib) {
            Less
        } else {
            Greater
        }
    })
}
/// value of a possibly symbolic element in the model that drives this run, as an escape
/// (the run is then specific to that value; counted and reported)
pub fn escape(f: u8, a: &L4) -> L4 {
    if !is_sym(a) {
        return *a;
    }
    with(|c| {
        c.escapes += 1;
        let id = a[0] as Id;
        let v = c.vals[id as usize];
        c.escape_vals.insert((f, v), id);
        v
    })
}
/// bytes handed out by `escape` turn back into the symbolic element
pub fn unescape(f: u8, v: &L4) -> L4 {
    with(|c| match c.escape_vals.get(&(f, *v)) {
        Some(id) => sym_limbs(*id),
        None => *v,
    })
}
pub fn var(f: u8, name: &str) -> L4 {
    with(|c| sym_limbs(c.var(f, name)))
}
pub fn value(a: &L4) -> L4 {
    if is_sym(a) {
        with(|c| c.vals[a[0] as usize])
    } else {
        *a
    }
}
pub fn in_reference<R>(f: impl FnOnce() -> R) -> R {
    let old = with(|c| std::mem::replace(&mut c.ns, 1));
    let r = f();
    with(|c| c.ns = old);
    r
}
