#![allow(dead_code)]
mod checks;
mod fw;
#[cfg(feature = "Y01")]
mod pyref;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = match args.get(1).map(|s| s.as_str()) {
        Some("run") => fw::parent(&args[2..]),
        Some("worker") => fw::worker(&args[2..]),
        Some("case") => fw::single_case(&args[2..]),
        #[cfg(feature = "Y01")]
        Some("pyref") => pyref::serve(),
        Some("replay") => fw::replay_file(&args[2]),
        _ => {
            eprintln!("usage: vh run CHECK TIER OUT.json REPLAYDIR | replay FILE");
            2
        }
    };
    std::process::exit(r);
}
