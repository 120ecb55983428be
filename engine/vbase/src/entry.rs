// the program around a set of scenarios; included by main.rs of each
fn arg(k: usize) -> String {
    std::env::args().nth(k).unwrap_or_default()
}

#[cfg(not(feature = "real"))]
fn main() {
    // vbase <property> <quick|thorough> <seed> <jobs>
    let t0 = std::time::Instant::now();
    let seed: u64 = arg(3).parse().unwrap_or(1);
    let jobs: usize = arg(4).parse().unwrap_or(8);
    let only = arg(5);
    let mut v = vec![];
    for s in scenarios(&arg(1), arg(2) == "thorough") {
        if !only.is_empty() && !s.name.starts_with(&only) {
            continue;
        }
        let run = s.run;
        let mut sc = symfield::explore::Scenario::new(s.name, move || run());
        sc.max_flips = s.flips;
        sc.max_paths = s.paths;
        sc.extra_models = s.extra.into_iter().map(|m| m.into_iter().collect()).collect();
        v.push(sc);
    }
    let t = symfield::explore::explore(v, seed, jobs);
    println!("{}", t.json(t0));
}

#[cfg(feature = "real")]
fn main() {
    // vbase <property> <quick|thorough> <scenario>, model (name=hex,...) on stdin
    std::panic::set_hook(Box::new(|_| {}));
    let name = arg(3);
    let model = symfield::explore::parse_model(std::io::read_to_string(std::io::stdin()).unwrap().trim()).into_iter().collect();
    *env::MODEL.lock().unwrap() = Some(model);
    let s = scenarios(&arg(1), arg(2) == "thorough").into_iter().find(|s| s.name == name);
    let Some(s) = s else {
        println!("NOSUCH");
        std::process::exit(3);
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)()));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        println!("FAIL panic: {}", m.unwrap_or_default().replace('\n', " "));
    }
    let f = match env::FAILS.lock() {
        Ok(g) => g.clone(),
        Err(e) => e.into_inner().clone(),
    };
    for x in f {
        println!("FAIL {x}");
    }
    println!("CHECKS {}", env::CHECKS.lock().map(|x| *x).unwrap_or(0));
}
