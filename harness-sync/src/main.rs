//! Native replay: `harness <name> <vals>` re-executes one harness with the
//! concrete values a solver trace assigned.  `vals` is `b,b,..;b,b,..`.
//! exit 0: ran to completion; 10: panicked (the property broke); 11: a
//! must-panic harness did not panic.
#[cfg(not(kani))]
fn main() {
    use harness_sync::*;
    let args: Vec<String> = std::env::args().collect();
    let name = &args[1];
    let vals: std::collections::VecDeque<Vec<u8>> = args.get(2).map(|s| s.as_str()).unwrap_or("")
        .split(';').filter(|s| !s.is_empty())
        .map(|s| s.split(',').map(|b| b.parse().unwrap()).collect()).collect();
    let (_, f, kind) = all().into_iter().find(|(n, _, _)| n == name).expect("no such harness");
    nd::VALS.with(|v| *v.borrow_mut() = vals);
    let r = std::panic::catch_unwind(f);
    nd::COVERED.with(|c| for w in c.borrow().iter() { println!("COVERED {}", w) });
    match (r.is_ok(), kind) {
        (true, "must_panic") => std::process::exit(11),
        (true, _) => println!("REPLAY-OK"),
        (false, "must_panic") => {
            // Only a panic of the code under test counts, not our own assertion.
            println!("REPLAY-PANICKED");
        }
        (false, _) => std::process::exit(10),
    }
}
#[cfg(kani)]
fn main() {}
