//! Bounded layer: independent readers of the written bytes, run against the
//! real crate. It searches for concrete failing inputs and stands in, labelled
//! bounded, for functions that the proof layer cannot decide.

mod pdf;
mod props;
mod run;
mod tree;
mod xref;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => run::run_cli(&args[2..]),
        Some("replay") => run::replay_cli(&args[2]),
        _ => {
            eprintln!("usage: harness run PID --tier T --seed N --src DIR --out FILE | replay FILE");
            std::process::exit(2);
        }
    }
}
