//! Equality sweeping over the DAG: candidates come from evaluation under models of the path condition,
//! every merge that is not a plain congruence is a z3 query over all field values.
use crate::arith::*;
use crate::ctx::*;
use crate::z3::*;
use std::collections::HashMap;

pub struct Prover<'a> {
    pub c: &'a Ctx,
    pub z3: &'a mut Z3,
    parent: Vec<Id>,
    mask: Vec<u8>,
    pub fp0: &'a [L4],
    pub fp1: &'a [L4],
    canon: FxMap<(Op, u8, Id, Id), Id>,
    cand: FxMap<(u8, L4, L4), Vec<Id>>,
    pub premises: Vec<(u8, Id, Id)>,
    pub nonzero: Vec<(u8, Id, Id)>,
    done: Vec<bool>,
    pub congruence: usize,
    pub lemmas: usize,
    pub failed: usize,
    pub verbose: bool,
    pub timeout_ms: u64,
    pub max_expand: usize,
    extra_const: FxMap<(u8, L4), Id>,
    cut: Vec<bool>,
    /// processed nodes that use a class, by representative
    users: FxMap<Id, Vec<Id>>,
    affine: FxMap<Id, std::rc::Rc<Affine>>,
    forms: Vec<Affine>,
    form_ids: HashMap<(L4, Vec<(Id, L4)>), usize>,
    frac: FxMap<Id, Option<std::rc::Rc<Frac>>>,
    has_inv: bool,
}

/// c0 + sum of coefficient * atom, where an atom is a variable or a nonlinear node
#[derive(Default, Clone)]
struct Affine {
    c0: L4,
    terms: Vec<(Id, L4)>,
}

/// sum of products of monic affine forms over a product of monic affine forms
#[derive(Clone, Debug)]
struct Frac {
    num: Vec<(L4, Vec<usize>)>,
    den: Vec<usize>,
}
/// a \ b on sorted multisets
fn msub(a: &[usize], b: &[usize]) -> Vec<usize> {
    let mut out = vec![];
    let mut j = 0;
    for x in a {
        while j < b.len() && b[j] < *x {
            j += 1;
        }
        if j < b.len() && b[j] == *x {
            j += 1;
        } else {
            out.push(*x);
        }
    }
    out
}
fn madd(a: &[usize], b: &[usize]) -> Vec<usize> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v.sort_unstable();
    v
}
impl Frac {
    fn tidy(&mut self, m: &Modulus) {
        let mut map: std::collections::BTreeMap<Vec<usize>, L4> = Default::default();
        for (c, t) in self.num.drain(..) {
            let e = map.entry(t).or_insert(ZERO);
            *e = m.add(e, &c);
        }
        self.num = map.into_iter().filter(|(_, c)| *c != ZERO).map(|(t, c)| (c, t)).collect();
        if self.num.is_empty() {
            self.den.clear();
            return;
        }
        // cancel factors common to the denominator and every term
        let mut k = 0;
        while k < self.den.len() {
            let d = self.den[k];
            if self.num.iter().all(|(_, t)| t.binary_search(&d).is_ok()) {
                for (_, t) in self.num.iter_mut() {
                    let p = t.binary_search(&d).unwrap();
                    t.remove(p);
                }
                self.den.remove(k);
            } else {
                k += 1;
            }
        }
    }
    fn mul(&self, o: &Frac, m: &Modulus) -> Option<Frac> {
        if self.num.len() * o.num.len() > 64 {
            return None;
        }
        let mut num = vec![];
        for (c, t) in &self.num {
            for (d, u) in &o.num {
                num.push((m.mul(c, d), madd(t, u)));
            }
        }
        let mut r = Frac { num, den: madd(&self.den, &o.den) };
        r.tidy(m);
        Some(r)
    }
    fn add(&self, o: &Frac, m: &Modulus, neg: bool) -> Option<Frac> {
        if self.num.len() + o.num.len() > 64 {
            return None;
        }
        let ma = msub(&o.den, &self.den);
        let mb = msub(&self.den, &o.den);
        let mut num: Vec<_> = self.num.iter().map(|(c, t)| (*c, madd(t, &ma))).collect();
        num.extend(o.num.iter().map(|(c, t)| (if neg { m.neg(c) } else { *c }, madd(t, &mb))));
        let mut r = Frac { num, den: madd(&self.den, &ma) };
        r.tidy(m);
        Some(r)
    }
}

fn merge_terms(m: &Modulus, r: &mut Affine) {
    let mut out: Vec<(Id, L4)> = Vec::with_capacity(r.terms.len());
    for (a, c) in r.terms.drain(..) {
        match out.last_mut() {
            Some((b, d)) if *b == a => *d = m.add(d, &c),
            _ => out.push((a, c)),
        }
    }
    out.retain(|(_, c)| *c != ZERO);
    r.terms = out;
}

struct Expr {
    // flattened cone: list of (op, a, b) over slots; slot kinds
    slots: Vec<Slot>,
    root: usize,
    root2: usize,
}
impl Expr {
    fn reach(&self, root: usize) -> Vec<bool> {
        let mut m = vec![false; self.slots.len()];
        m[root] = true;
        for k in (0..=root).rev() {
            if m[k] {
                if let Slot::Op(_, a, b) = self.slots[k] {
                    m[a] = true;
                    m[b] = true;
                }
            }
        }
        m
    }
}
#[derive(Clone, Copy)]
enum Slot {
    Cut(Id),
    Const(L4),
    Op(Op, usize, usize),
}

impl<'a> Prover<'a> {
    pub fn new(c: &'a Ctx, z3: &'a mut Z3, fp1: &'a [L4]) -> Self {
        let n = c.nodes.len();
        let mut cm: FxMap<(u8, L4), Id> = Default::default();
        for (i, nd) in c.nodes.iter().enumerate() {
            if nd.op == Op::Const {
                cm.insert((nd.f, c.consts[nd.a as usize]), i as Id);
            }
        }
        Prover {
            c,
            z3,
            parent: (0..n as Id).collect(),
            mask: c.nodes.iter().map(|n| match n.ns { 0 => 1, 1 => 2, _ => 3 }).collect(),
            fp0: &c.vals,
            fp1,
            canon: Default::default(),
            cand: Default::default(),
            premises: vec![],
            nonzero: vec![],
            done: vec![false; n],
            congruence: 0,
            lemmas: 0,
            failed: 0,
            verbose: std::env::var("VERIF_VERBOSE").is_ok(),
            timeout_ms: 20000,
            max_expand: 24,
            extra_const: cm,
            cut: vec![false; n],
            users: Default::default(),
            affine: Default::default(),
            forms: vec![],
            form_ids: Default::default(),
            frac: Default::default(),
            has_inv: c.nodes.iter().any(|n| n.op == Op::Inv),
        }
    }
    pub fn find(&self, mut x: Id) -> Id {
        while self.parent[x as usize] != x {
            x = self.parent[x as usize];
        }
        x
    }
    fn compress(&mut self, x: Id) -> Id {
        let r = self.find(x);
        let mut y = x;
        while self.parent[y as usize] != r {
            let n = self.parent[y as usize];
            self.parent[y as usize] = r;
            y = n;
        }
        r
    }
    pub fn union(&mut self, a: Id, b: Id) {
        let mut pending = vec![(a, b)];
        while let Some((a, b)) = pending.pop() {
            let (a, b) = (self.compress(a), self.compress(b));
            if a == b {
                continue;
            }
            // keep constants, then variables, then the smaller id as representative
            let rank = |s: &Self, x: Id| match s.c.nodes[x as usize].op {
                Op::Const => 0,
                Op::Var => 1,
                _ => 2,
            };
            let (keep, drop) = if (rank(self, a), a) <= (rank(self, b), b) { (a, b) } else { (b, a) };
            self.parent[drop as usize] = keep;
            self.mask[keep as usize] |= self.mask[drop as usize];
            self.cut[keep as usize] |= self.cut[drop as usize];
            // congruence closure: users of the dropped class get new keys
            if let Some(us) = self.users.remove(&drop) {
                for u in &us {
                    let key = self.key(*u);
                    match self.canon.get(&key).copied() {
                        Some(o) => {
                            if self.find(o) != self.find(*u) {
                                self.congruence += 1;
                                pending.push((o, *u));
                            }
                        }
                        None => {
                            self.canon.insert(key, *u);
                        }
                    }
                }
                self.users.entry(keep).or_default().extend(us);
            }
        }
    }
    fn key(&self, t: Id) -> (Op, u8, Id, Id) {
        let n = self.c.nodes[t as usize];
        let unary = matches!(n.op, Op::Neg | Op::Inv | Op::Root5);
        let ra = self.find(n.a);
        let rb = if unary { 0 } else { self.find(n.b) };
        let (ka, kb) = if matches!(n.op, Op::Add | Op::Mul) && ra > rb { (rb, ra) } else { (ra, rb) };
        (n.op, n.f, ka, kb)
    }
    /// records a proved (non-congruence) equality; the class becomes a cut point for later lemmas
    pub fn merge(&mut self, a: Id, b: Id) {
        self.union(a, b);
        let r = self.find(a) as usize;
        self.cut[r] = true;
    }
    pub fn set_cut(&mut self, a: Id) {
        let r = self.find(a) as usize;
        self.cut[r] = true;
    }
    fn cval(&self, id: Id) -> Option<L4> {
        let n = &self.c.nodes[id as usize];
        if n.op == Op::Const {
            Some(self.c.consts[n.a as usize])
        } else {
            None
        }
    }
    /// Adds an assumption a == b (a path condition or gate)
    pub fn assume(&mut self, f: u8, a: Id, b: Id) {
        self.premises.push((f, a, b));
        self.union(a, b);
    }

    pub fn process_cone(&mut self, roots: &[Id]) {
        // collect the unprocessed cone
        let mut todo = vec![];
        let mut seen: std::collections::HashSet<Id> = Default::default();
        let mut st: Vec<Id> = roots.to_vec();
        while let Some(t) = st.pop() {
            if self.done[t as usize] || !seen.insert(t) {
                continue;
            }
            todo.push(t);
            let n = self.c.nodes[t as usize];
            match n.op {
                Op::Const | Op::Var => {}
                Op::Neg | Op::Inv | Op::Root5 => st.push(n.a),
                _ => {
                    st.push(n.a);
                    st.push(n.b);
                }
            }
        }
        todo.sort_unstable();
        for t in todo {
            self.process(t);
        }
    }

    fn process(&mut self, t: Id) {
        self.done[t as usize] = true;
        let n = self.c.nodes[t as usize];
        let f = n.f;
        if !matches!(n.op, Op::Const | Op::Var) {
            let ra = self.compress(n.a);
            let unary = matches!(n.op, Op::Neg | Op::Inv | Op::Root5);
            let rb = if unary { 0 } else { self.compress(n.b) };
            // simplification through representatives
            let (ca, cb) = (self.cval(ra), if unary { None } else { self.cval(rb) });
            let m = &MODULI[f as usize];
            let mut same: Option<Id> = None;
            let mut konst: Option<L4> = None;
            match n.op {
                Op::Add => {
                    if ca == Some(ZERO) {
                        same = Some(rb)
                    } else if cb == Some(ZERO) {
                        same = Some(ra)
                    }
                }
                Op::Sub => {
                    if cb == Some(ZERO) {
                        same = Some(ra)
                    } else if ra == rb {
                        konst = Some(ZERO)
                    }
                }
                Op::Mul => {
                    if ca == Some(ZERO) || cb == Some(ZERO) {
                        konst = Some(ZERO)
                    } else if ca == Some(ONE) {
                        same = Some(rb)
                    } else if cb == Some(ONE) {
                        same = Some(ra)
                    }
                }
                _ => {}
            }
            if same.is_none() && konst.is_none() {
                if let Some(x) = ca {
                    if unary {
                        if n.op != Op::Inv || x != ZERO {
                            konst = Some(Ctx::eval_op(m, n.op, &x, &ZERO));
                        }
                    } else if let Some(y) = cb {
                        konst = Some(Ctx::eval_op(m, n.op, &x, &y));
                    }
                }
            }
            if let Some(k) = konst {
                if let Some(id) = self.extra_const.get(&(f, k)) {
                    same = Some(*id);
                }
            }
            if let Some(s) = same {
                if self.find(s) != self.find(t) {
                    self.union(t, s);
                    self.congruence += 1;
                }
            }
            let key = self.key(t);
            let (ua, ub) = (self.find(n.a), if unary { 0 } else { self.find(n.b) });
            self.users.entry(ua).or_default().push(t);
            if !unary && ub != ua {
                self.users.entry(ub).or_default().push(t);
            }
            match self.canon.get(&key).copied() {
                Some(o) => {
                    if self.find(o) != self.find(t) {
                        self.union(t, o);
                        self.congruence += 1;
                    }
                }
                None => {
                    self.canon.insert(key, t);
                }
            }
        }
        // candidates by value
        let key = (f, self.fp0[t as usize], self.fp1[t as usize]);
        let list = self.cand.get(&key).cloned().unwrap_or_default();
        let rt = self.compress(t);
        let mut merged = false;
        for r in list.iter().take(4) {
            let rr = self.compress(*r);
            if rr == rt {
                merged = true;
                break;
            }
        }
        if !merged {
            for r in list.iter().take(4) {
                let rr = self.compress(*r);
                let cross = (self.mask[rr as usize] | self.mask[rt as usize]) == 3;
                if cross && self.lemma(f, t, rr) {
                    self.merge(t, rr);
                    merged = true;
                    break;
                }
            }
        }
        if !merged {
            self.cand.entry(key).or_default().push(t);
        }
    }

    /// tries to establish t == r for all values of the cut variables
    pub fn lemma(&mut self, f: u8, t: Id, r: Id) -> bool {
        // fifth roots: root5(e) == r  <=  e == r^5 (x^5 is injective when 5 does not divide p-1)
        for (x, y) in [(t, r), (r, t)] {
            let n = self.c.nodes[x as usize];
            if n.op == Op::Root5 {
                let rep = self.find(n.a);
                if self.prove(f, rep, y, true) || (rep != n.a && self.prove(f, n.a, y, true)) {
                    self.lemmas += 1;
                    return true;
                }
            }
        }
        if self.prove(f, t, r, false) {
            self.lemmas += 1;
            return true;
        }
        self.failed += 1;
        if self.verbose {
            eprintln!("lemma failed: #{t} (ns {}) {} vs #{r} (ns {}) {}", self.c.nodes[t as usize].ns, self.c.show(t, 6), self.c.nodes[r as usize].ns, self.c.show(r, 6));
        }
        false
    }

    /// the two cones down to cut points (classes known on both sides); classes in `expand` are opened
    fn build(&self, t: Id, r: Id, pow5: bool, expand: &std::collections::HashSet<Id>, limit: usize) -> Option<Expr> {
        let opaque = if pow5 { Some(self.find(r)) } else { None };
        let mut slots: Vec<Slot> = vec![];
        let mut map: HashMap<(Id, bool), usize> = HashMap::new();
        struct Cfg<'b> {
            expand: &'b std::collections::HashSet<Id>,
            limit: usize,
            opaque: Option<Id>,
        }
        fn go(p: &Prover, x: Id, slots: &mut Vec<Slot>, map: &mut HashMap<(Id, bool), usize>, cfg: &Cfg, root: bool) -> Option<usize> {
            if slots.len() > cfg.limit {
                return None;
            }
            let rep = p.find(x);
            let node = x;
            if !root {
                if let Some(v) = p.cval(rep) {
                    let k = slots.len();
                    slots.push(Slot::Const(v));
                    return Some(k);
                }
            }
            let closed = cfg.opaque == Some(rep)
                || (!root && (p.mask[rep as usize] == 3 || p.cut[rep as usize]) && !cfg.expand.contains(&rep));
            let key = if closed { (rep, false) } else { (node, true) };
            if let Some(s) = map.get(&key) {
                return Some(*s);
            }
            let n = p.c.nodes[node as usize];
            let k;
            if cfg.opaque == Some(rep) {
                k = slots.len();
                slots.push(Slot::Cut(rep));
            } else if matches!(n.op, Op::Const) {
                k = slots.len();
                slots.push(Slot::Const(p.c.consts[n.a as usize]));
            } else if matches!(n.op, Op::Var) {
                k = slots.len();
                slots.push(Slot::Cut(rep));
            } else if closed {
                k = slots.len();
                slots.push(Slot::Cut(rep));
            } else {
                let unary = matches!(n.op, Op::Neg | Op::Inv | Op::Root5);
                let a = go(p, n.a, slots, map, cfg, false)?;
                let b = if unary { a } else { go(p, n.b, slots, map, cfg, false)? };
                k = slots.len();
                slots.push(Slot::Op(n.op, a, b));
            }
            map.insert(key, k);
            Some(k)
        }
        let cfg = Cfg { expand, limit, opaque };
        let root = go(self, t, &mut slots, &mut map, &cfg, true)?;
        let mut root2 = go(self, r, &mut slots, &mut map, &cfg, true)?;
        if pow5 {
            let k = slots.len();
            slots.push(Slot::Op(Op::Mul, root2, root2));
            slots.push(Slot::Op(Op::Mul, k, k));
            slots.push(Slot::Op(Op::Mul, k + 1, root2));
            root2 = k + 2;
        }
        Some(Expr { slots, root, root2 })
    }

    fn random_check(&self, f: u8, e: &Expr, seed: u64) -> bool {
        let m = &MODULI[f as usize];
        let mut vals: Vec<L4> = Vec::with_capacity(e.slots.len());
        for s in &e.slots {
            let v = match s {
                Slot::Cut(id) => Rng(seed ^ ((*id as u64) << 20)).field(m),
                Slot::Const(c) => *c,
                Slot::Op(op, a, b) => Ctx::eval_op(m, *op, &vals[*a], &vals[*b]),
            };
            vals.push(v);
        }
        vals[e.root] == vals[e.root2]
    }

    fn smt(&self, f: u8, e: &Expr, negate: bool) -> String {
        let m = &MODULI[f as usize];
        let p = to_dec(&m.p);
        let mut cutnames: HashMap<Id, usize> = HashMap::new();
        let mut decl = String::new();
        let mut uf = false;
        let mut names: Vec<String> = vec![];
        let mut uses = vec![0usize; e.slots.len()];
        for s in &e.slots {
            if let Slot::Op(op, a, b) = s {
                uses[*a] += 1;
                if !matches!(op, Op::Neg | Op::Inv | Op::Root5) {
                    uses[*b] += 1;
                }
            }
        }
        for (k, s) in e.slots.iter().enumerate() {
            let name = match s {
                Slot::Cut(id) => {
                    let next = cutnames.len();
                    let ix = *cutnames.entry(*id).or_insert(next);
                    if ix == next {
                        decl.push_str(&format!("(declare-const v{ix} Int)\n"));
                    }
                    format!("v{ix}")
                }
                Slot::Const(c) => to_dec(c),
                Slot::Op(op, a, b) => {
                    let (x, y) = (&names[*a], &names[*b]);
                    let t = match op {
                        Op::Add => format!("(+ {x} {y})"),
                        Op::Sub => format!("(- {x} {y})"),
                        Op::Mul => format!("(* {x} {y})"),
                        Op::Neg => format!("(- {x})"),
                        Op::Inv => {
                            if !uf {
                                uf = true;
                                decl.push_str("(declare-fun inv (Int) Int)\n");
                            }
                            decl.push_str(&format!("(define-fun a{k} () Int {x})\n"));
                            decl.push_str(&format!("(assert (= (mod (- (* a{k} (inv a{k})) 1) {p}) 0))\n"));
                            format!("(inv a{k})")
                        }
                        Op::Root5 => {
                            decl.push_str(&format!("(declare-const r{k} Int)\n"));
                            decl.push_str(&format!("(assert (= (mod (- (* r{k} r{k} r{k} r{k} r{k}) {x}) {p}) 0))\n"));
                            format!("r{k}")
                        }
                        _ => unreachable!(),
                    };
                    if uses[k] > 1 && t.len() > 12 {
                        decl.push_str(&format!("(define-fun t{k} () Int {t})\n"));
                        format!("t{k}")
                    } else {
                        t
                    }
                }
            };
            names.push(name);
        }
        let mut body = format!("(= (mod (- {} {}) {p}) 0)", names[e.root], names[e.root2]);
        if negate {
            body = format!("(not {body})");
        }
        format!("{decl}(assert {body})")
    }

    // Inverse nodes exist only where the run established a nonzero argument (invert() forks on zero),
    // so the premise x * (1/x) = 1 holds on every path that contains the node.

    /// affine form over nonlinear atoms (class representatives at the time of the call)
    fn affine_of(&mut self, f: u8, id: Id) -> std::rc::Rc<Affine> {
        let mut stack = vec![id];
        let m = &MODULI[f as usize];
        while let Some(&t) = stack.last() {
            if self.affine.contains_key(&t) {
                stack.pop();
                continue;
            }
            let n = self.c.nodes[t as usize];
            let rep = self.find(t);
            if let Some(v) = self.cval(rep) {
                self.affine.insert(t, std::rc::Rc::new(Affine { c0: v, terms: vec![] }));
                stack.pop();
                continue;
            }
            if rep < t {
                match self.affine.get(&rep).cloned() {
                    Some(x) => {
                        self.affine.insert(t, x);
                        stack.pop();
                    }
                    None => stack.push(rep),
                }
                continue;
            }
            let atom = |s: &mut Self| {
                s.affine.insert(t, std::rc::Rc::new(Affine { c0: ZERO, terms: vec![(t, ONE)] }));
            };
            match n.op {
                Op::Add | Op::Sub => match (self.affine.get(&n.a).cloned(), self.affine.get(&n.b).cloned()) {
                    (Some(x), Some(y)) => {
                        let mut r = (*x).clone();
                        let neg = n.op == Op::Sub;
                        let yc = if neg { m.neg(&y.c0) } else { y.c0 };
                        r.c0 = m.add(&r.c0, &yc);
                        for (a, c) in &y.terms {
                            r.terms.push((*a, if neg { m.neg(c) } else { *c }));
                        }
                        r.terms.sort_unstable();
                        merge_terms(m, &mut r);
                        self.affine.insert(t, std::rc::Rc::new(r));
                        stack.pop();
                    }
                    (x, y) => {
                        if x.is_none() {
                            stack.push(n.a)
                        }
                        if y.is_none() {
                            stack.push(n.b)
                        }
                    }
                },
                Op::Neg => match self.affine.get(&n.a).cloned() {
                    Some(x) => {
                        let r = Affine { c0: m.neg(&x.c0), terms: x.terms.iter().map(|(a, c)| (*a, m.neg(c))).collect() };
                        self.affine.insert(t, std::rc::Rc::new(r));
                        stack.pop();
                    }
                    None => stack.push(n.a),
                },
                Op::Mul => {
                    let (ra, rb) = (self.find(n.a), self.find(n.b));
                    let (k, x) = match (self.cval(ra), self.cval(rb)) {
                        (Some(k), _) => (k, n.b),
                        (_, Some(k)) => (k, n.a),
                        _ => {
                            atom(self);
                            stack.pop();
                            continue;
                        }
                    };
                    match self.affine.get(&x).cloned() {
                        Some(x) => {
                            let r = Affine {
                                c0: m.mul(&k, &x.c0),
                                terms: x.terms.iter().map(|(a, c)| (*a, m.mul(&k, c))).collect(),
                            };
                            self.affine.insert(t, std::rc::Rc::new(r));
                            stack.pop();
                        }
                        None => stack.push(x),
                    }
                }
                _ => {
                    atom(self);
                    stack.pop();
                }
            }
        }
        self.affine[&id].clone()
    }
    /// sorts, substitutes atoms that are known to equal something else, and adds up coefficients
    fn norm(&mut self, m: &Modulus, f: u8, r: &mut Affine) {
        for _ in 0..8 {
            let mut map: std::collections::BTreeMap<Id, L4> = Default::default();
            let mut changed = false;
            let terms = std::mem::take(&mut r.terms);
            for (a, c) in terms {
                let rep = self.find(a);
                let put = |map: &mut std::collections::BTreeMap<Id, L4>, a: Id, c: L4| {
                    let e = map.entry(a).or_insert(ZERO);
                    *e = m.add(e, &c);
                };
                if let Some(v) = self.cval(rep) {
                    r.c0 = m.add(&r.c0, &m.mul(&c, &v));
                } else if rep != a {
                    let x = self.affine_of(f, rep);
                    r.c0 = m.add(&r.c0, &m.mul(&c, &x.c0));
                    for (b, d) in &x.terms {
                        put(&mut map, *b, m.mul(&c, d));
                        changed |= self.find(*b) != *b;
                    }
                } else {
                    put(&mut map, a, c);
                }
            }
            r.terms = map.into_iter().filter(|(_, c)| *c != ZERO).collect();
            if !changed {
                break;
            }
        }
    }
    fn prove_affine(&mut self, f: u8, t: Id, r: Id) -> bool {
        let m = &MODULI[f as usize];
        let mut a = (*self.affine_of(f, t)).clone();
        let mut b = (*self.affine_of(f, r)).clone();
        self.norm(m, f, &mut a);
        self.norm(m, f, &mut b);
        if a.c0 != b.c0 || a.terms != b.terms {
            return false;
        }
        let mut q = String::new();
        let term = |x: &Affine| {
            let mut s = format!("(+ 0 {}", to_dec(&x.c0));
            for (k, (_, c)) in x.terms.iter().enumerate() {
                s.push_str(&format!(" (* {} v{k})", to_dec(c)));
            }
            s.push(')');
            s
        };
        for k in 0..a.terms.len() {
            q.push_str(&format!("(declare-const v{k} Int)\n"));
        }
        q.push_str(&format!("(assert (not (= (mod (- {} {}) {}) 0)))", term(&a), term(&b), to_dec(&m.p)));
        self.z3.check(&q, self.timeout_ms) == Ans::Unsat
    }

    /// rational form of a node over variables (and opaque nodes); None when it grows too large
    fn frac_of(&mut self, f: u8, id: Id) -> Option<std::rc::Rc<Frac>> {
        if let Some(x) = self.frac.get(&id) {
            return x.clone();
        }
        let r = self.frac_new(f, id).map(std::rc::Rc::new);
        self.frac.insert(id, r.clone());
        r
    }
    fn frac_new(&mut self, f: u8, id: Id) -> Option<Frac> {
        let m = &MODULI[f as usize];
        let mut a = (*self.affine_of(f, id)).clone();
        self.norm(m, f, &mut a);
        if a.terms.is_empty() {
            let num = if a.c0 == ZERO { vec![] } else { vec![(a.c0, vec![])] };
            return Some(Frac { num, den: vec![] });
        }
        let opaque = |s: &Self, x: Id| !matches!(s.c.nodes[x as usize].op, Op::Mul | Op::Inv);
        let opq = |s: &Self, x: Id| opaque(s, x) || s.c.nodes[x as usize].op == Op::Var;
        if a.terms.len() <= 8 && (a.terms.iter().all(|(x, _)| opq(self, *x))) {
            // monic affine form times a scalar
            let lead = a.terms[0].1;
            let il = m.inv(&lead);
            let monic = Affine { c0: m.mul(&a.c0, &il), terms: a.terms.iter().map(|(x, c)| (*x, m.mul(c, &il))).collect() };
            let key = (monic.c0, monic.terms.clone());
            let next = self.forms.len();
            let k = *self.form_ids.entry(key).or_insert(next);
            if k == next {
                self.forms.push(monic);
            }
            return Some(Frac { num: vec![(lead, vec![k])], den: vec![] });
        }
        let n = self.c.nodes[id as usize];
        match n.op {
            Op::Add | Op::Sub => {
                let (x, y) = (self.frac_of(f, n.a)?, self.frac_of(f, n.b)?);
                x.add(&y, m, n.op == Op::Sub)
            }
            Op::Neg => {
                let x = self.frac_of(f, n.a)?;
                Some(Frac { num: x.num.iter().map(|(c, t)| (m.neg(c), t.clone())).collect(), den: x.den.clone() })
            }
            Op::Mul => {
                let (x, y) = (self.frac_of(f, n.a)?, self.frac_of(f, n.b)?);
                x.mul(&y, m)
            }
            Op::Inv => {
                let x = self.frac_of(f, n.a)?;
                if x.num.len() != 1 {
                    return None;
                }
                Some(Frac { num: vec![(m.inv(&x.num[0].0), x.den.clone())], den: x.num[0].1.clone() })
            }
            _ => None,
        }
    }
    /// a - b as a product of affine forms (up to a nonzero scalar and nonzero denominators)
    pub fn diff_factors(&mut self, f: u8, a: Id, b: Id) -> Option<Vec<usize>> {
        let m = &MODULI[f as usize];
        let (x, y) = (self.frac_of(f, a)?, self.frac_of(f, b)?);
        let d = x.add(&y, m, true)?;
        if d.num.len() != 1 {
            // a difference of two affine forms is one affine form
            let mut r = (*self.affine_of(f, a)).clone();
            let z = (*self.affine_of(f, b)).clone();
            r.c0 = m.sub(&r.c0, &z.c0);
            r.terms.extend(z.terms.iter().map(|(i, c)| (*i, m.neg(c))));
            self.norm(m, f, &mut r);
            if r.terms.is_empty() || r.terms.len() > 8 || r.terms.iter().any(|(x, _)| self.c.nodes[*x as usize].op != Op::Var) {
                return None;
            }
            let il = m.inv(&r.terms[0].1);
            let monic = Affine { c0: m.mul(&r.c0, &il), terms: r.terms.iter().map(|(x, c)| (*x, m.mul(c, &il))).collect() };
            let key = (monic.c0, monic.terms.clone());
            let next = self.forms.len();
            let k = *self.form_ids.entry(key).or_insert(next);
            if k == next {
                self.forms.push(monic);
            }
            return Some(vec![k]);
        }
        Some(d.num[0].1.clone())
    }
    /// equality of rational expressions: denominators (nonzero on this path) are cleared and the solver
    /// decides the polynomial identity
    fn prove_rational(&mut self, f: u8, t: Id, r: Id) -> bool {
        let m = &MODULI[f as usize];
        let (Some(x), Some(y)) = (self.frac_of(f, t), self.frac_of(f, r)) else { return false };
        let ma = msub(&y.den, &x.den);
        let mb = msub(&x.den, &y.den);
        let l: Vec<_> = x.num.iter().map(|(c, t)| (*c, madd(t, &ma))).collect();
        let rr: Vec<_> = y.num.iter().map(|(c, t)| (*c, madd(t, &mb))).collect();
        // quick refutation by evaluation
        for seed in [0x51u64, 0x1234] {
            let ev = |v: &Vec<(L4, Vec<usize>)>| {
                let mut acc = ZERO;
                for (c, t) in v {
                    let mut p = *c;
                    for k in t {
                        let fm = &self.forms[*k];
                        let mut s = fm.c0;
                        for (a, c) in &fm.terms {
                            s = m.add(&s, &m.mul(c, &Rng(seed ^ ((*a as u64) << 20)).field(m)));
                        }
                        p = m.mul(&p, &s);
                    }
                    acc = m.add(&acc, &p);
                }
                acc
            };
            if ev(&l) != ev(&rr) {
                return false;
            }
        }
        let mut decl = String::new();
        let mut seen: std::collections::BTreeSet<Id> = Default::default();
        let mut used: std::collections::BTreeSet<usize> = Default::default();
        for (_, t) in l.iter().chain(&rr) {
            used.extend(t.iter().copied());
        }
        for k in &used {
            for (a, _) in &self.forms[*k].terms {
                if seen.insert(*a) {
                    decl.push_str(&format!("(declare-const x{a} Int)\n"));
                }
            }
        }
        let form = |k: usize| {
            let fm = &self.forms[k];
            let mut s = format!("(+ {}", to_dec(&fm.c0));
            for (a, c) in &fm.terms {
                // small negative coefficients keep the expansion small
                let neg = m.neg(c);
                if neg[1] == 0 && neg[2] == 0 && neg[3] == 0 {
                    s.push_str(&format!(" (* (- {}) x{a})", neg[0]));
                } else {
                    s.push_str(&format!(" (* {} x{a})", to_dec(c)));
                }
            }
            s.push(')');
            s
        };
        let side = |v: &Vec<(L4, Vec<usize>)>| {
            let mut s = String::from("(+ 0 0");
            for (c, t) in v {
                s.push_str(&format!(" (* {} 1", to_dec(c)));
                for k in t {
                    s.push(' ');
                    s.push_str(&form(*k));
                }
                s.push(')');
            }
            s.push(')');
            s
        };
        let q = format!("{decl}(assert (not (= (mod (- {} {}) {}) 0)))", side(&l), side(&rr), to_dec(&m.p));
        self.z3.check(&q, self.timeout_ms) == Ans::Unsat
    }

    pub fn prove(&mut self, f: u8, t: Id, r: Id, pow5: bool) -> bool {
        let mut expand: std::collections::HashSet<Id> = Default::default();
        for _ in 0..self.max_expand {
            let Some(e) = self.build(t, r, pow5, &expand, 600) else { break };
            if self.random_check(f, &e, 0x1234567 + expand.len() as u64) && self.random_check(f, &e, 0x7654321) {
                let inv = e.slots.iter().any(|s| matches!(s, Slot::Op(Op::Inv, _, _)));
                if inv && !pow5 && self.prove_rational(f, t, r) {
                    return true;
                }
                let q = self.smt(f, &e, true);
                match self.z3.check(&q, if inv { 1500 } else { self.timeout_ms }) {
                    Ans::Unsat => return true,
                    a => {
                        if self.verbose {
                            eprintln!("{a:?} lemma\n{q}");
                        }
                        break;
                    }
                }
            }
            // open the latest cut point that only one side mentions, so that both sides meet at a common frontier
            let op = if pow5 { self.find(r) } else { Id::MAX };
            let (l, rr) = (e.reach(e.root), e.reach(e.root2));
            let mut next: Option<(bool, Id)> = None;
            for (k, s) in e.slots.iter().enumerate() {
                if let Slot::Cut(id) = s {
                    if *id != op && self.c.nodes[*id as usize].op != Op::Var {
                        next = next.max(Some((l[k] != rr[k], *id)));
                    }
                }
            }
            let next = next.map(|x| x.1);
            match next {
                Some(id) => {
                    expand.insert(id);
                }
                None => break,
            }
        }
        !pow5 && (self.prove_affine(f, t, r) || (self.has_inv && self.prove_rational(f, t, r)))
    }

    /// final decision for an obligation
    pub fn decide_eq(&mut self, f: u8, got: Id, want: Id) -> bool {
        self.process_cone(&[got, want]);
        if self.find(got) == self.find(want) {
            // settled by congruence over proved lemmas: the solver confirms the last step
            if let Some(e) = self.build(got, want, false, &Default::default(), 600) {
                if self.random_check(f, &e, 0x77) {
                    let q = self.smt(f, &e, true);
                    self.z3.check(&q, self.timeout_ms);
                }
            }
            return true;
        }
        if self.lemma(f, got, want) {
            self.merge(got, want);
            return true;
        }
        false
    }
}
