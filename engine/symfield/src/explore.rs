//! Concolic exploration: each path runs in a forked child (so process-wide state starts fresh), driven by a model
//! of its path condition; branch flips are solved for new models; obligations are decided for the whole path.
use crate::arith::*;
use crate::ctx::*;
use crate::prover::*;
use crate::z3::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::time::Instant;

pub struct Scenario {
    pub name: String,
    pub run: Box<dyn Fn()>,
    pub max_flips: usize,
    pub max_paths: usize,
    pub extra_models: Vec<HashMap<String, L4>>,
}
impl Scenario {
    pub fn new(name: impl Into<String>, run: impl Fn() + 'static) -> Self {
        Scenario { name: name.into(), run: Box::new(run), max_flips: 2, max_paths: 64, extra_models: vec![] }
    }
    pub fn flips(mut self, f: usize, p: usize) -> Self {
        self.max_flips = f;
        self.max_paths = p;
        self
    }
}

#[derive(Clone)]
struct Work {
    scn: usize,
    model: HashMap<String, L4>,
    from: usize,
    flips: usize,
    seed: u64,
    extra: bool,
    /// started from one of `leads`
    led: bool,
}

#[derive(Default, Clone)]
pub struct Totals {
    pub scenarios: usize,
    pub paths: usize,
    pub dup_paths: usize,
    pub decisions: usize,
    pub infeasible: usize,
    pub unresolved: usize,
    pub capped: usize,
    pub escapes: usize,
    pub obligations: usize,
    pub proved: usize,
    pub unknown: usize,
    pub congruence: usize,
    pub lemmas: usize,
    pub failed_lemmas: usize,
    pub queries: usize,
    pub unsat: usize,
    pub sat: usize,
    pub z3_unknown: usize,
    pub cache_hits: usize,
    pub z3_time: f64,
    pub z3_max: f64,
    pub nodes: usize,
    pub errors: Vec<String>,
    pub unknown_labels: Vec<String>,
    pub refuted: Vec<(String, String, String, Vec<(String, L4)>)>,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
    /// (scenario, model) of explored paths, first path of every scenario first
    pub models: Vec<(String, String, bool)>,
    pub out_of_time: usize,
    pub crashed: usize,
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(res: i32, r: *const RLimit) -> i32;
    fn alarm(s: u32) -> u32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn solve_for_var(c: &Ctx, f: u8, d: (Id, Id), vars: &mut [L4], v: usize, rng: &mut Rng) -> bool {
    let m = &MODULI[f as usize];
    let mut at = |x: L4| -> L4 {
        let old = vars[v];
        vars[v] = x;
        let mut memo = Default::default();
        let a = c.eval_one(d.0, vars, &mut memo);
        let b = c.eval_one(d.1, vars, &mut memo);
        vars[v] = old;
        m.sub(&a, &b)
    };
    let f0 = at(ZERO);
    let f1 = at(ONE);
    let t = rng.field(m);
    let ft = at(t);
    let slope = m.sub(&f1, &f0);
    if slope != ZERO && ft == m.add(&f0, &m.mul(&slope, &t)) {
        let x = m.mul(&m.neg(&f0), &m.inv(&slope));
        vars[v] = x;
        return true;
    }
    // (alpha*v + beta)^5 = gamma: try f(v) = f(0) + ... as a fifth power of an affine form
    // degree <= 25 polynomials: interpolate and look for a root
    if let Some(x) = crate::poly::root_of(m, &mut at, 26, rng) {
        vars[v] = x;
        return true;
    }
    false
}

fn holds(c: &Ctx, ds: &[Decision], vars: &[L4]) -> bool {
    let mut memo = Default::default();
    ds.iter().all(|d| {
        let a = c.eval_one(d.a, vars, &mut memo);
        let b = c.eval_one(d.b, vars, &mut memo);
        let r = match d.rel {
            Rel::Eq => a == b,
            Rel::Lt => !geq(&a, &b),
        };
        r == d.outcome
    })
}

/// a model of all decisions, or None
pub fn solve(c: &Ctx, ds: &[Decision], rng: &mut Rng, keep: bool) -> Option<Vec<L4>> {
    let eqs: Vec<&Decision> = ds.iter().filter(|d| d.rel == Rel::Eq && d.outcome).collect();
    let base = c.var_values();
    for attempt in 0..24 {
        let mut vars = base.clone();
        if attempt > 0 || !keep {
            for (k, (_, id)) in c.vars.iter().enumerate() {
                vars[k] = rng.field(&MODULI[c.nodes[*id as usize].f as usize]);
            }
        }
        let mut used: HashSet<usize> = HashSet::new();
        let mut ok = true;
        for d in &eqs {
            let mut memo = Default::default();
            if c.eval_one(d.a, &vars, &mut memo) == c.eval_one(d.b, &vars, &mut memo) {
                // satisfied already: protect its variables in the first half of the attempts
                if attempt < 12 {
                    used.extend(c.support(d.a));
                    used.extend(c.support(d.b));
                }
                continue;
            }
            let mut sup: Vec<usize> = c.support(d.a);
            sup.extend(c.support(d.b));
            sup.sort();
            sup.dedup();
            sup.retain(|v| !used.contains(v));
            // rotate so that different attempts solve for different variables
            let n = sup.len();
            if n > 0 {
                sup.rotate_left(attempt % n);
            }
            let mut solved = false;
            for v in sup {
                if solve_for_var(c, d.f, (d.a, d.b), &mut vars, v, rng) {
                    used.insert(v);
                    solved = true;
                    break;
                }
            }
            if !solved {
                ok = false;
                break;
            }
        }
        if !ok && attempt >= 3 {
            break;
        }
        if ok && holds(c, ds, &vars) {
            return Some(vars);
        }
    }
    None
}

/// further models to start exploring from when the code branches on values: those at which comparisons, zero tests and
/// looks at the representation turn out otherwise than at random values
fn leads(c: &Ctx, rng: &mut Rng) -> Vec<Vec<L4>> {
    let n = c.vars.len();
    let m = |k: usize| &MODULI[c.nodes[c.vars[k].1 as usize].f as usize];
    let base = c.var_values();
    let mut out: Vec<Vec<L4>> = vec![];
    let t = rng.field(&MODULI[0]);
    for v in [ZERO, ONE] {
        out.push(vec![v; n]);
    }
    out.push((0..n).map(|k| if geq(&t, &m(k).p) { ONE } else { t }).collect());
    out.push((0..n).map(|k| m(k).neg(&ONE)).collect());
    out.push((0..n).map(|_| [rng.next() & 0xffff_ffff, 0, 0, 0]).collect());
    out.push((0..n).map(|_| [rng.next(), 0, 0, 0]).collect());
    out.push((0..n).map(|_| [rng.next(), rng.next(), 0, 0]).collect());
    if n > 1 {
        for part in 0..4 {
            out.push((0..n).map(|k| if [k < n / 2, k >= n / 2, k % 2 == 0, k % 2 == 1][part] { ZERO } else { base[k] }).collect());
        }
        for k in (0..n).take(6).chain((6..n).rev().take(2)) {
            out.push((0..n).map(|i| if i == k { ZERO } else { base[i] }).collect());
            out.push((0..n).map(|i| if i != k { ZERO } else { base[i] }).collect());
        }
    }
    out
}

fn run_child(s: &Scenario, w: &Work, out: &mut String, nscn: &str, seen: &HashSet<(usize, String)>) {
    with(|c| {
        *c = Ctx::default();
        c.model = w.model.clone();
        c.rng = w.seed;
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)()));
    let ctx: Box<Ctx> = {
        let mut g = match CTX.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        g.take().unwrap()
    };
    let c = &*ctx;
    let mut rng = Rng(w.seed ^ 0xABCDEF);
    let mut sig = 0u64;
    for d in &c.decisions {
        for x in [d.rel as u64, d.a as u64, d.b as u64, d.outcome as u64] {
            sig = (sig.rotate_left(7) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        }
    }
    let _ = writeln!(out, "SIG\t{sig:x}");
    let _ = writeln!(out, "STAT\tdecisions\t{}", c.decisions.len());
    let _ = writeln!(out, "STAT\tescapes\t{}", c.escapes);
    let _ = writeln!(out, "STAT\tnodes\t{}", c.nodes.len());
    for n in &c.notes {
        let _ = writeln!(out, "NOTE\t{n}");
    }
    let model_str = |vars: &[L4]| -> String {
        c.vars.iter().zip(vars).map(|((n, _), v)| format!("{n}={}", to_hex(v))).collect::<Vec<_>>().join(",")
    };
    let here = model_str(&c.var_values());
    // a path already decided: nothing new unless values were looked at otherwise
    if r.is_ok() && c.escapes == 0 && !w.extra && seen.contains(&(w.scn, format!("{sig:x}"))) {
        let _ = writeln!(out, "END");
        return;
    }
    if w.flips == 0 && !w.extra && !w.led && (c.escapes > 0 || !c.decisions.is_empty()) {
        for m in leads(c, &mut rng) {
            let _ = writeln!(out, "LEAD\t{}", model_str(&m));
        }
    }
    let mut z3 = Z3::new();
    if let Err(e) = r {
        let msg = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let _ = writeln!(out, "REFUTED\tno panic\t{}\t{here}", msg.replace(['\n', '\t'], " "));
        let _ = writeln!(out, "STAT\tobligations\t1");
    }
    for (l, m) in &c.refuted_plain {
        let _ = writeln!(out, "REFUTED\t{l}\t{}\t{here}", m.replace(['\n', '\t'], " "));
    }
    let _ = writeln!(out, "STAT\tobligations\t{}", c.obligations.iter().filter(|o| !o.hint).count() + c.refuted_plain.len() + c.proved_plain + c.smt.len());
    let _ = writeln!(out, "STAT\tproved\t{}", c.proved_plain);
    let mut by_smt = 0;
    for (l, body) in &c.smt {
        match z3.check(body, 20_000) {
            Ans::Unsat => by_smt += 1,
            Ans::Sat => {
                let _ = writeln!(out, "REFUTED\t{l}\tsatisfiable\t{here}");
            }
            Ans::Unknown => {
                let _ = writeln!(out, "UNKNOWN\t{l}");
            }
        }
    }
    let _ = writeln!(out, "STAT\tproved\t{by_smt}");
    // a second, independent model of the same path for candidate detection
    let m2 = if c.obligations.is_empty() && c.decisions.is_empty() { None } else { solve(c, &c.decisions, &mut rng, false) };
    let vars2 = m2.unwrap_or_else(|| c.var_values());
    let fp1 = c.eval_all(&vars2);
    let mut p = Prover::new(c, &mut z3, &fp1);
    for (f, a, b) in &c.axioms {
        p.process_cone(&[*a, *b]);
        p.assume(*f, *a, *b);
    }
    for d in &c.decisions {
        if d.rel == Rel::Eq && d.outcome {
            p.process_cone(&[d.a, d.b]);
            if p.find(d.a) != p.find(d.b) {
                p.assume(d.f, d.a, d.b);
            }
        }
    }
    let mut proved = 0;
    for o in &c.obligations {
        if o.hint {
            if o.got == o.want {
                p.set_cut(o.got);
            } else {
                p.decide_eq(o.f, o.got, o.want);
            }
            continue;
        }
        let (g, wv) = (c.vals[o.got as usize], c.vals[o.want as usize]);
        if g != wv {
            let _ = writeln!(out, "REFUTED\t{}\tgot {} want {}\t{here}", o.label, to_hex(&g), to_hex(&wv));
            continue;
        }
        let (g, wv) = (fp1[o.got as usize], fp1[o.want as usize]);
        if g != wv {
            let _ = writeln!(out, "REFUTED\t{}\tgot {} want {}\t{}", o.label, to_hex(&g), to_hex(&wv), model_str(&vars2));
            continue;
        }
        if p.decide_eq(o.f, o.got, o.want) {
            proved += 1;
        } else {
            let _ = writeln!(out, "UNKNOWN\t{}", o.label);
        }
    }
    let _ = writeln!(out, "STAT\tproved\t{proved}");
    let _ = writeln!(out, "STAT\tcongruence\t{}", p.congruence);
    let _ = writeln!(out, "STAT\tlemmas\t{}", p.lemmas);
    let _ = writeln!(out, "STAT\tfailed_lemmas\t{}", p.failed);
    // flips
    if w.flips < s.max_flips && !w.extra {
        let mut order: Vec<usize> = (w.from..c.decisions.len()).collect();
        order.sort_by_key(|k| c.decisions[*k].rel == Rel::Lt);
        let mut capped = 0;
        let mut produced = 0;
        for k in order {
            if produced >= s.max_paths {
                capped += 1;
                continue;
            }
            let mut ds: Vec<Decision> = c.decisions[..=k].to_vec();
            ds[k].outcome = !ds[k].outcome;
            let d = ds[k];
            if d.rel == Rel::Eq && !d.outcome {
                // flipping to "different": infeasible when equality is a theorem of the prefix
                p.process_cone(&[d.a, d.b]);
                if d.a == d.b || (p.find(d.a) == p.find(d.b) && !c.decisions[..=k].iter().any(|x| x.rel == Rel::Eq && x.outcome && x.a == d.a && x.b == d.b)) {
                    let _ = writeln!(out, "STAT\tinfeasible\t1");
                    continue;
                }
            }
            if d.rel == Rel::Eq && d.outcome && infeasible(&mut p, c, &ds[..k], d) {
                let _ = writeln!(out, "STAT\tinfeasible\t1");
                continue;
            }
            match solve(c, &ds, &mut rng, true) {
                Some(v) => {
                    produced += 1;
                    let _ = writeln!(out, "WORK\t{}\t{}\t{}", k + 1, w.flips + 1, model_str(&v));
                }
                None => {
                    let _ = writeln!(
                        out,
                        "UNRESOLVED\t{nscn}: branch {} {} {} -> {}",
                        c.show(d.a, 2),
                        if d.rel == Rel::Eq { "==" } else { "<" },
                        c.show(d.b, 2),
                        d.outcome
                    );
                }
            }
        }
        let _ = writeln!(out, "STAT\tcapped\t{capped}");
    }
    for (k, v) in [
        ("queries", z3.queries),
        ("unsat", z3.unsat),
        ("sat", z3.sat),
        ("z3_unknown", z3.unknown),
        ("cache_hits", z3.cache_hits),
    ] {
        let _ = writeln!(out, "STAT\t{k}\t{v}");
    }
    let _ = writeln!(out, "TIME\t{}\t{}", z3.time, z3.max_time);
    let _ = writeln!(out, "SAMPLE\t{here}");
    let _ = writeln!(out, "END");
}

/// a == b contradicts an earlier "a != b" or is a difference of distinct constants
fn infeasible(p: &mut Prover, c: &Ctx, prefix: &[Decision], d: Decision) -> bool {
    p.process_cone(&[d.a, d.b]);
    let (ra, rb) = (p.find(d.a), p.find(d.b));
    if c.is_const(ra) && c.is_const(rb) && ra != rb {
        return true;
    }
    if prefix.iter().any(|x| {
        x.rel == Rel::Eq && !x.outcome && {
            p.process_cone(&[x.a, x.b]);
            let (xa, xb) = (p.find(x.a), p.find(x.b));
            (xa == ra && xb == rb) || (xa == rb && xb == ra)
        }
    }) {
        return true;
    }
    // the difference is a product of forms each of which an earlier decision made nonzero
    let Some(fs) = p.diff_factors(d.f, d.a, d.b) else { return false };
    let mut nonzero: HashSet<usize> = HashSet::new();
    for x in prefix.iter().filter(|x| x.rel == Rel::Eq && !x.outcome) {
        if let Some(v) = p.diff_factors(x.f, x.a, x.b) {
            // a nonzero product has nonzero factors
            nonzero.extend(v);
        }
    }
    fs.iter().all(|k| nonzero.contains(k))
}

pub fn explore(scns: Vec<Scenario>, seed: u64, jobs: usize) -> Totals {
    std::panic::set_hook(Box::new(|_| {}));
    let mut tot = Totals { scenarios: scns.len(), ..Default::default() };
    let mut queue: VecDeque<Work> = VecDeque::new();
    for (k, s) in scns.iter().enumerate() {
        queue.push_back(Work { scn: k, model: HashMap::new(), from: 0, flips: 0, seed, extra: false, led: false });
        for m in &s.extra_models {
            queue.push_back(Work { scn: k, model: m.clone(), from: 0, flips: 0, seed, extra: true, led: false });
        }
    }
    let mut seen: HashSet<(usize, String)> = HashSet::new();
    let mut npaths: HashMap<usize, usize> = HashMap::new();
    let mut nled: HashMap<usize, usize> = HashMap::new();
    let mut failing: HashSet<usize> = HashSet::new();
    let mut running: HashMap<i32, (Work, std::path::PathBuf)> = HashMap::new();
    let dir = std::env::temp_dir().join(format!("symfield-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut nfile = 0usize;
    let t0 = Instant::now();
    let num = |k: &str, d: u64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let budget = num("SYM_BUDGET", 600) as f64;
    let path_limit = num("SYM_PATH_SECONDS", 240) as u32;
    let mem = num("SYM_MEM_MB", 3000);
    loop {
        // enough counterexamples: the rest would say the same
        if (t0.elapsed().as_secs_f64() > budget || failing.len() >= 40 && t0.elapsed().as_secs_f64() > 60.0) && !queue.is_empty() {
            tot.out_of_time += queue.len();
            queue.clear();
        }
        while running.len() < jobs {
            let Some(w) = queue.pop_front() else { break };
            if !w.led {
                let n = npaths.entry(w.scn).or_insert(0);
                if *n >= scns[w.scn].max_paths {
                    tot.capped += 1;
                    continue;
                }
                *n += 1;
            } else if w.flips > 0 {
                let n = nled.entry(w.scn).or_insert(0);
                if *n >= scns[w.scn].max_paths / 2 {
                    tot.capped += 1;
                    continue;
                }
                *n += 1;
            }
            nfile += 1;
            let path = dir.join(format!("{nfile}"));
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe {
                    prctl(1, 9, 0, 0, 0);
                    setrlimit(9, &RLimit { cur: mem << 20, max: mem << 20 });
                    alarm(path_limit);
                }
                let mut out = String::new();
                run_child(&scns[w.scn], &w, &mut out, &scns[w.scn].name, &seen);
                let _ = std::fs::write(&path, out);
                unsafe { _exit(0) }
            }
            if pid < 0 {
                tot.errors.push("fork failed".into());
                break;
            }
            running.insert(pid, (w, path));
        }
        if running.is_empty() {
            break;
        }
        let mut st = 0i32;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        let Some((w, path)) = running.remove(&pid) else { continue };
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        let _ = std::fs::remove_file(&path);
        let name = scns[w.scn].name.clone();
        if !text.ends_with("END\n") {
            // no result: the run crashed, ran out of memory or did not end; the caller replays it natively
            let mut m: Vec<(String, L4)> = w.model.into_iter().collect();
            m.sort();
            tot.refuted.push((name, "run ends normally".into(), format!("status {st}"), m));
            tot.crashed += 1;
            continue;
        }
        let sig = text.lines().find_map(|l| l.strip_prefix("SIG\t")).unwrap_or("").to_string();
        let dup = !seen.insert((w.scn, sig)) && !w.extra;
        if dup {
            tot.dup_paths += 1;
        } else {
            tot.paths += 1;
        }
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "STAT" => {
                    let v: usize = f[2].parse().unwrap();
                    match f[1] {
                        "decisions" => tot.decisions += v,
                        "escapes" => tot.escapes += v,
                        "nodes" => tot.nodes += v,
                        "obligations" => tot.obligations += v,
                        "proved" => tot.proved += v,
                        "congruence" => tot.congruence += v,
                        "lemmas" => tot.lemmas += v,
                        "failed_lemmas" => tot.failed_lemmas += v,
                        "infeasible" => tot.infeasible += v,
                        "capped" => tot.capped += v,
                        "queries" => tot.queries += v,
                        "unsat" => tot.unsat += v,
                        "sat" => tot.sat += v,
                        "z3_unknown" => tot.z3_unknown += v,
                        "cache_hits" => tot.cache_hits += v,
                        _ => {}
                    }
                }
                "TIME" => {
                    tot.z3_time += f[1].parse::<f64>().unwrap_or(0.0);
                    tot.z3_max = tot.z3_max.max(f[2].parse::<f64>().unwrap_or(0.0));
                }
                "LEAD" if !dup => {
                    let m: HashMap<String, L4> = parse_model(f[1]).into_iter().collect();
                    queue.push_back(Work { scn: w.scn, model: m, from: 0, flips: 0, seed: w.seed, extra: false, led: true });
                }
                "REFUTED" => {
                    failing.insert(w.scn);
                    let m = parse_model(f[3]);
                    tot.refuted.push((name.clone(), f[1].into(), f[2].into(), m));
                }
                "UNKNOWN" => {
                    tot.unknown += 1;
                    tot.unknown_labels.push(format!("{name}: {}", f[1]));
                }
                "UNRESOLVED" => {
                    tot.unresolved += 1;
                    if tot.notes.len() < 20 {
                        tot.notes.push(format!("unexplored {}", f[1]));
                    }
                }
                "NOTE" => {
                    if tot.notes.len() < 40 {
                        tot.notes.push(format!("{name}: {}", f[1]));
                    }
                }
                "SAMPLE" => {
                    if !dup {
                        let first = w.flips == 0 && !w.extra;
                        let m = if first || tot.models.len() < 400 { f[1].to_string() } else { String::new() };
                        if !m.is_empty() {
                            tot.models.push((name.clone(), m, first));
                        }
                    }
                    if tot.samples.len() < 4 && !dup {
                        let mut s = f[1].to_string();
                        s.truncate(300);
                        tot.samples.push(format!("{name}: {s}"));
                    }
                }
                "WORK" if !dup => {
                    let m: HashMap<String, L4> = parse_model(f[3]).into_iter().collect();
                    queue.push_back(Work {
                        scn: w.scn,
                        model: m,
                        from: f[1].parse().unwrap(),
                        flips: f[2].parse().unwrap(),
                        seed: w.seed,
                        extra: false,
                        led: w.led,
                    });
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    tot
}

pub fn parse_model(s: &str) -> Vec<(String, L4)> {
    s.split(',')
        .filter(|x| x.contains('='))
        .map(|x| {
            let (a, b) = x.split_once('=').unwrap();
            (a.to_string(), from_hex(b))
        })
        .collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

impl Totals {
    pub fn json(&self, t0: Instant) -> String {
        let mut n: HashMap<(&str, &str), usize> = HashMap::new();
        let models: Vec<String> = self.models.iter().map(|(s, m, first)| format!("[{},{},{first}]", js(s), js(m))).collect();
        let refuted: Vec<String> = self
            .refuted
            .iter()
            .filter(|r| {
                let k = n.entry((&r.0, "")).or_insert(0);
                *k += 1;
                *k <= 4
            })
            .take(400)
            .map(|(s, l, m, model)| {
                let mm: Vec<String> = model.iter().map(|(k, v)| format!("{}:{}", js(k), js(&to_hex(v)))).collect();
                format!("{{\"scenario\":{},\"label\":{},\"msg\":{},\"model\":{{{}}}}}", js(s), js(l), js(m), mm.join(","))
            })
            .collect();
        format!(
            "{{\"scenarios\":{},\"paths\":{},\"duplicate_paths\":{},\"decisions\":{},\"infeasible_flips\":{},\"unresolved_flips\":{},\"capped_flips\":{},\"escapes\":{},\"obligations\":{},\"discharged\":{},\"unknown\":{},\"congruence_merges\":{},\"lemmas_by_solver\":{},\"failed_lemmas\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"solver_unknown\":{},\"cache_hits\":{},\"solver_time_s\":{:.3},\"solver_max_query_s\":{:.3},\"dag_nodes\":{},\"wall_s\":{:.2},\"errors\":{},\"unknown_labels\":{},\"notes\":{},\"samples\":{},\"out_of_time\":{},\"crashed\":{},\"models\":[{}],\"refuted\":[{}]}}",
            self.scenarios, self.paths, self.dup_paths, self.decisions, self.infeasible, self.unresolved, self.capped,
            self.escapes, self.obligations, self.proved, self.unknown, self.congruence, self.lemmas, self.failed_lemmas,
            self.queries, self.unsat, self.sat, self.z3_unknown, self.cache_hits, self.z3_time, self.z3_max, self.nodes,
            t0.elapsed().as_secs_f64(), jl(&self.errors), jl(&self.unknown_labels), jl(&self.notes), jl(&self.samples), self.out_of_time, self.crashed, models.join(","), refuted.join(",")
        )
    }
}
