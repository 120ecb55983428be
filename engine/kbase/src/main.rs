//! kbase <length> <capacity in hex or "default"> <four words in hex>: the same run with concrete values
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[1].parse().unwrap();
    let cap = if a[2] == "default" { None } else { Some(u128::from_str_radix(&a[2], 16).unwrap()) };
    let m: [u128; 4] = std::array::from_fn(|k| u128::from_str_radix(&a[3 + k], 16).unwrap());
    kbase::run(&m, n, cap);
    println!("no permutation");
    std::process::exit(1)
}
