//! Helpers shared by the scenario sets.
use crate::env::*;
use crate::reference::{self as rf, Params};
use symfield::arith::L4;

pub struct Scen {
    pub name: String,
    pub run: Box<dyn Fn()>,
    pub flips: usize,
    pub paths: usize,
    pub extra: Vec<Vec<(String, L4)>>,
}
impl Scen {
    pub fn new(name: impl Into<String>, run: impl Fn() + 'static) -> Self {
        Scen { name: name.into(), run: Box::new(run), flips: 2, paths: 48, extra: vec![] }
    }
    pub fn lim(mut self, flips: usize, paths: usize) -> Self {
        self.flips = flips;
        self.paths = paths;
        self
    }
}

pub fn state<F: VField>(p: &str) -> [F; 3] {
    [0, 1, 2].map(|i| sym::<F>(&format!("{p}{i}")))
}
pub fn checks<F: VField>(label: &str, got: &[F], want: &[F]) {
    check_plain(&format!("{label}: length"), got.len() == want.len(), || format!("{} values, expected {}", got.len(), want.len()));
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        check(&format!("{label}[{k}]"), *g, *w);
    }
}
/// reference permutation together with its constant-folded form; the relation between the two
/// is handed to the prover as lemmas
pub fn ref_perm<F: VField>(p: &Params<F>, s: &[F]) -> Vec<F> {
    in_ref(|| {
        let (fp, rel) = fold(p);
        let n = p.rc.len();
        let (first, last) = (p.rf / 2, n - p.rf / 2);
        let mut a = s.to_vec();
        let mut b = s.to_vec();
        // amount by which the folded state trails the plain one
        let mut lag = vec![F::ZERO; 3];
        for r in 0..n {
            let full = r < first || r >= last;
            for k in 0..3 {
                a[k] = a[k] + p.rc[r][k];
                // by congruence equal to a[k]
                let t = (b[k] + lag[k]) + p.rc[r][k];
                b[k] = b[k] + fp.rc[r][k];
                let w = b[k] + rel[r][k];
                hint(t, w);
                hint(a[k], w);
                hint(b[k], b[k]);
                hint(rel[r][k], rel[r][k]);
            }
            let mut u = vec![];
            for k in 0..3 {
                if k == 0 || full {
                    a[k] = rf::pow5(a[k]);
                    b[k] = rf::pow5(b[k]);
                    hint(a[k], b[k]);
                    u.push(b[k]);
                } else {
                    u.push(b[k] + rel[r][k]);
                }
            }
            let t = rf::mat_vec(&p.mds, &u);
            a = rf::mat_vec(&p.mds, &a);
            b = rf::mat_vec(&p.mds, &b);
            lag = if full { vec![F::ZERO; 3] } else { rf::mat_vec(&p.mds, &rel[r]) };
            for k in 0..3 {
                hint(t[k], b[k] + lag[k]);
                hint(a[k], b[k] + lag[k]);
                hint(b[k], b[k]);
                hint(lag[k], lag[k]);
            }
        }
        a
    })
}
/// (folded parameters, amounts missing on each word after adding the folded constants of a round)
pub fn fold<F: VField>(p: &Params<F>) -> (Params<F>, Vec<[F; 3]>) {
    let n = p.rc.len();
    let (first, last) = (p.rf / 2, n - p.rf / 2);
    let mut rc = p.rc.clone();
    let mut rel = vec![];
    for r in 0..n {
        if r >= first && r < last {
            let tail = [F::ZERO, rc[r][1], rc[r][2]];
            rc[r][1] = F::ZERO;
            rc[r][2] = F::ZERO;
            let carry = rf::mat_vec(&p.mds, &tail);
            for k in 0..3 {
                rc[r + 1][k] = rc[r + 1][k] + carry[k];
            }
            rel.push(tail);
        } else {
            rel.push([F::ZERO; 3]);
        }
    }
    (Params { rf: p.rf, rc, mds: p.mds.clone() }, rel)
}

