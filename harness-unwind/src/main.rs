//! Native replay: `harness-unwind <name> <vals>` runs one harness with concrete
//! values `b;b;..`.  exit 0: ran to completion; 10: the property broke.
use harness_unwind::*;
#[global_allocator]
static A: nd::Counting = nd::Counting;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = all().into_iter().find(|(n, _)| *n == a[1]).expect("no such harness").1;
    let vals: Vec<u8> = a.get(2).map(|s| s.as_str()).unwrap_or("").split(';').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    nd::VALS.with(|v| *v.borrow_mut() = vals);
    if std::panic::catch_unwind(|| f()).is_err() {
        eprintln!("REPLAY-BROKEN a panic leaves the harness");
        std::process::exit(10);
    }
    println!("REPLAY-OK");
}
