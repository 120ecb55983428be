//! A persistent z3 process fed SMT-LIB text.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ans {
    Unsat,
    Sat,
    Unknown,
}

pub struct Z3 {
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub cache: HashMap<String, Ans>,
    pub queries: usize,
    pub cache_hits: usize,
    pub time: f64,
    pub max_time: f64,
    pub unsat: usize,
    pub sat: usize,
    pub unknown: usize,
    pub bin: String,
}

impl Z3 {
    pub fn new() -> Self {
        let bin = std::env::var("VERIF_Z3").unwrap_or_else(|_| "z3-new".into());
        Z3 { child: None, cache: HashMap::new(), queries: 0, cache_hits: 0, time: 0.0, max_time: 0.0, unsat: 0, sat: 0, unknown: 0, bin }
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("cannot start z3");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.child = Some((c, i, o));
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// body: declarations and assertions; decided by one check-sat
    pub fn check(&mut self, body: &str, timeout_ms: u64) -> Ans {
        if let Some(a) = self.cache.get(body) {
            self.cache_hits += 1;
            return *a;
        }
        let t0 = Instant::now();
        if self.child.is_none() {
            self.start();
        }
        let q = format!("(push)\n(set-option :timeout {timeout_ms})\n{body}\n(check-sat)\n(pop)\n(echo \"done\")\n");
        let mut ans = Ans::Unknown;
        let mut err = false;
        {
            let (_, i, o) = self.child.as_mut().unwrap();
            if i.write_all(q.as_bytes()).is_err() || i.flush().is_err() {
                err = true;
            }
            loop {
                let mut line = String::new();
                match o.read_line(&mut line) {
                    Ok(0) | Err(_) => {
                        err = true;
                        break;
                    }
                    _ => {}
                }
                let l = line.trim();
                if l == "done" {
                    break;
                } else if l == "unsat" {
                    ans = Ans::Unsat
                } else if l == "sat" {
                    ans = Ans::Sat
                } else if l.starts_with("(error") {
                    eprintln!("z3: {l}");
                    err = true;
                }
            }
        }
        if err {
            ans = Ans::Unknown;
            self.kill();
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        match ans {
            Ans::Unsat => self.unsat += 1,
            Ans::Sat => self.sat += 1,
            Ans::Unknown => self.unknown += 1,
        }
        self.cache.insert(body.to_string(), ans);
        ans
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        self.kill();
    }
}
