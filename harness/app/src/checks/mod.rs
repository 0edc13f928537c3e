//! The checks, one per property.
use crate::fw::{Ctx, Tier};

pub struct Check {
    pub name: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub bound: fn(Tier) -> String,
    pub assumptions: &'static [&'static str],
    pub jobs: fn(Tier) -> usize,
    pub run: fn(&mut Ctx),
}

/// The function of a check, if it is among those this binary was built for (a feature each).
macro_rules! only {
    ($n:literal, $f:expr) => {{
        #[cfg(feature = $n)]
        let f: fn(&mut crate::fw::Ctx) = $f;
        #[cfg(not(feature = $n))]
        let f: fn(&mut crate::fw::Ctx) = |_| panic!("HARNESS: built without {}", $n);
        f
    }};
}

mod build;
mod corpus;
mod elements;
mod io;
mod reorder;
mod repro;
mod rw;
mod search;
mod storage;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(search::checks());
    v.extend(build::checks());
    v.extend(corpus::checks());
    v.extend(elements::checks());
    v.extend(io::checks());
    v.extend(reorder::checks());
    v.extend(repro::checks());
    v.extend(rw::checks());
    v.extend(storage::checks());
    v
}
pub fn find(name: &str) -> Check {
    all().into_iter().find(|c| c.name == name).unwrap_or_else(|| {
        eprintln!("no check named {}", name);
        std::process::exit(2)
    })
}
